//! Voronoi cells by cutting a box with the bisecting planes: slow, simple, and independent of the code under test.
use glam::DVec3;

pub struct Piece<T> {
    pub tag: Option<T>,
    pub polygon: Vec<DVec3>,
}

/// A convex body around the origin.
pub struct Body<T> {
    pub faces: Vec<Piece<T>>,
}

impl<T: Clone> Body<T> {
    pub fn cuboid(min: DVec3, max: DVec3) -> Self {
        let corner = |x: bool, y: bool, z: bool| DVec3::new(if x { max.x } else { min.x }, if y { max.y } else { min.y }, if z { max.z } else { min.z });
        let mut faces = vec![];
        for axis in 0..3 {
            for side in [false, true] {
                let polygon = [(false, false), (true, false), (true, true), (false, true)]
                    .iter()
                    .map(|(a, b)| match axis {
                        0 => corner(side, *a, *b),
                        1 => corner(*a, side, *b),
                        _ => corner(*a, *b, side),
                    })
                    .collect();
                faces.push(Piece { tag: None, polygon });
            }
        }
        Body { faces }
    }

    /// Removes everything with normal * x > d.
    pub fn cut(&mut self, normal: DVec3, d: f64, tag: T) {
        if !self.faces.iter().flat_map(|f| &f.polygon).any(|p| normal.dot(*p) > d) {
            return;
        }
        let mut cap: Vec<DVec3> = vec![];
        for f in &mut self.faces {
            let n = f.polygon.len();
            let mut kept = vec![];
            for i in 0..n {
                let (a, b) = (f.polygon[i], f.polygon[(i + 1) % n]);
                let (ha, hb) = (normal.dot(a) - d, normal.dot(b) - d);
                if ha <= 0.0 {
                    kept.push(a);
                }
                if (ha <= 0.0) != (hb <= 0.0) {
                    let x = a + (b - a) * (ha / (ha - hb));
                    kept.push(x);
                    cap.push(x);
                }
            }
            f.polygon = kept;
        }
        self.faces.retain(|f| f.polygon.len() > 2);
        if cap.len() > 2 {
            let u = normal.any_orthonormal_vector();
            let v = normal.cross(u);
            let middle = cap.iter().copied().sum::<DVec3>() / cap.len() as f64;
            cap.sort_by(|a, b| {
                let angle = |p: &DVec3| v.dot(*p - middle).atan2(u.dot(*p - middle));
                angle(a).total_cmp(&angle(b))
            });
            self.faces.push(Piece { tag: Some(tag), polygon: cap });
        }
    }

    pub fn radius(&self) -> f64 {
        self.faces.iter().flat_map(|f| &f.polygon).map(|p| p.length()).fold(0.0, f64::max)
    }

    /// With the origin inside.
    pub fn volume(&self) -> f64 {
        self.faces
            .iter()
            .map(|f| (2..f.polygon.len()).map(|i| f.polygon[0].dot(f.polygon[i - 1].cross(f.polygon[i]))).sum::<f64>().abs() / 6.0)
            .sum()
    }
}

impl<T> Piece<T> {
    pub fn area(&self) -> f64 {
        let p = &self.polygon;
        (2..p.len()).map(|i| (p[i - 1] - p[0]).cross(p[i] - p[0])).sum::<DVec3>().length() * 0.5
    }
}

/// The Voronoi cell of the origin among points at these relative positions, within the body.
pub fn voronoi<T: Clone>(mut body: Body<T>, mut others: Vec<(T, DVec3)>) -> Body<T> {
    others.sort_by(|a, b| a.1.length_squared().total_cmp(&b.1.length_squared()));
    let mut radius = body.radius();
    for (tag, p) in others {
        let l = p.length();
        if l > 2.0 * radius {
            break;
        }
        body.cut(p / l, 0.5 * l, tag);
        radius = body.radius();
    }
    body
}
