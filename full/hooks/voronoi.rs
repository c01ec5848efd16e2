#[cfg(feature = "hook_grid")]
pub mod grid_verif {
    pub use super::constructor::parallel::plugin::GridParameters as GridConstructionParameters;
}
#[cfg(feature = "hook_voronoi")]
pub mod verif {
    use std::collections::HashMap;

    use super::delaunay::dimension::DFace;
    use super::delaunay::Delaunay;
    use super::delaunay::PointIndex;
    use super::delaunay::PointKind;
    use super::math::traits::DVector;
    use super::Cell;
    use super::Constructor;
    use super::DCell;
    use super::DDimension;
    use super::DTetra;
    use super::Triangulation;
    use crate::dimension::Point;
    use crate::dimension::ThreeD;
    use crate::dimension::TwoD;
    use crate::extent::Extent;
    use crate::prelude::ParticleId;
    use crate::sweep::grid::ParticleType;

    pub struct Simplex {
        /// Indices of the corners.
        pub points: Vec<usize>,
        /// For each corner, the corners of the face listed as opposite to it.
        pub faces: Vec<Vec<usize>>,
        /// For each face the listed simplex on the other side and the listed corner of it.
        pub neighbours: Vec<Option<(usize, usize)>>,
        pub circumcenter: Vec<f64>,
    }

    /// A triangulation as plain data.
    pub struct Mesh {
        pub points: Vec<Vec<f64>>,
        /// Corners of the surrounding simplex.
        pub outer: Vec<bool>,
        pub simplices: Vec<Simplex>,
        pub num_faces: usize,
        /// Points the mesh was made of: their indices in it, in the order they were given in.
        pub inserted: Vec<usize>,
    }

    pub struct Face {
        /// Index of the neighbour in the input, None: outside.
        pub neighbour: Option<usize>,
        pub area: f64,
        pub normal: Vec<f64>,
    }

    pub struct VCell {
        pub particle: usize,
        pub center: Vec<f64>,
        pub volume: f64,
        pub size: f64,
        pub infinite: bool,
        pub faces: Vec<Face>,
        pub points: Vec<Vec<f64>>,
        pub contains: Vec<bool>,
    }

    pub trait Flat: Copy {
        fn flat(self) -> Vec<f64>;
        fn unflat(v: &[f64]) -> Self;
    }
    impl Flat for glam::DVec2 {
        fn flat(self) -> Vec<f64> {
            vec![self.x, self.y]
        }
        fn unflat(v: &[f64]) -> Self {
            glam::DVec2::new(v[0], v[1])
        }
    }
    impl Flat for glam::DVec3 {
        fn flat(self) -> Vec<f64> {
            vec![self.x, self.y, self.z]
        }
        fn unflat(v: &[f64]) -> Self {
            glam::DVec3::new(v[0], v[1], v[2])
        }
    }

    fn mesh<D>(t: &Triangulation<D>, inserted: Vec<PointIndex>) -> Mesh
    where
        D: DDimension,
        Triangulation<D>: Delaunay<D>,
        Point<D>: Flat,
    {
        use super::delaunay::dimension::DTetraData;
        let number: HashMap<PointIndex, usize> = t
            .iter_original_points()
            .enumerate()
            .map(|(i, (p, _))| (p, i))
            .collect();
        let simplex: HashMap<_, _> = t
            .tetras
            .iter()
            .enumerate()
            .map(|(i, (index, _))| (index, i))
            .collect();
        Mesh {
            points: t.iter_original_points().map(|(_, p)| p.flat()).collect(),
            outer: t
                .iter_original_points()
                .map(|(i, _)| t.point_kinds[&i] == PointKind::Outer)
                .collect(),
            num_faces: t.faces.iter().count(),
            inserted: inserted.iter().map(|p| number[p]).collect(),
            simplices: t
                .tetras
                .iter()
                .map(|(_, tetra)| Simplex {
                    points: tetra.points().map(|p| number[&p]).collect(),
                    faces: tetra
                        .faces()
                        .map(|f| t.faces[f.face].points().map(|p| number[&p]).collect())
                        .collect(),
                    neighbours: tetra
                        .faces()
                        .map(|f| {
                            f.opposing.map(|o| {
                                (
                                    simplex.get(&o.tetra).copied().unwrap_or(usize::MAX),
                                    number.get(&o.point).copied().unwrap_or(usize::MAX),
                                )
                            })
                        })
                        .collect(),
                    circumcenter: t.get_tetra_data(tetra).get_center_of_circumcircle().flat(),
                })
                .collect(),
        }
    }

    fn triangulate<D>(
        points: &[Vec<f64>],
        extent: Option<(&[f64], &[f64])>,
        later: usize,
    ) -> Mesh
    where
        D: DDimension,
        Triangulation<D>: Delaunay<D>,
        Point<D>: Flat,
    {
        let first = points.len() - later;
        let iter = || {
            points[..first]
                .iter()
                .enumerate()
                .map(|(i, p)| (i, Point::<D>::unflat(p)))
        };
        let (mut t, map) = match extent {
            None => Triangulation::<D>::construct_from_iter(iter()),
            Some((min, max)) => Triangulation::<D>::construct_from_iter_custom_extent(
                iter(),
                &Extent::from_min_max(Point::<D>::unflat(min), Point::<D>::unflat(max)),
            ),
        };
        let mut inserted: Vec<PointIndex> =
            (0..first).map(|i| *map.get_by_left(&i).unwrap()).collect();
        for p in &points[first..] {
            inserted.push(t.insert(Point::<D>::unflat(p), PointKind::Halo(0)).0);
        }
        mesh(&t, inserted)
    }

    /// Triangulates all points but the last `later`, then inserts these one by one.
    pub fn triangulate_2d(points: &[Vec<f64>], extent: Option<(&[f64], &[f64])>, later: usize) -> Mesh {
        triangulate::<TwoD>(points, extent, later)
    }

    pub fn triangulate_3d(points: &[Vec<f64>], extent: Option<(&[f64], &[f64])>, later: usize) -> Mesh {
        triangulate::<ThreeD>(points, extent, later)
    }

    /// The Voronoi cells of the points, and whether they contain the probes.
    pub fn cells_3d(points: &[Vec<f64>], probes: &[Vec<f64>]) -> Vec<VCell> {
        let id = |i: usize| ParticleId {
            index: i as u32,
            rank: 0,
        };
        let constructor = Constructor::<ThreeD>::new(
            points
                .iter()
                .enumerate()
                .map(|(i, p)| (id(i), Flat::unflat(p))),
        );
        constructor.voronoi().cells.iter().map(|c| cell(c, probes)).collect()
    }

    fn number(p: &ParticleType) -> Option<usize> {
        match p {
            ParticleType::Local(id) => Some(id.index as usize),
            ParticleType::Boundary => None,
            other => panic!("unexpected neighbour {other:?}"),
        }
    }

    fn cell<D>(c: &Cell<D>, probes: &[Vec<f64>]) -> VCell
    where
        D: DDimension,
        Cell<D>: DCell<Dimension = D>,
        Point<D>: Flat,
    {
        VCell {
            particle: number(&c.index).unwrap(),
            center: c.center.flat(),
            volume: c.volume(),
            size: c.size(),
            infinite: c.is_infinite,
            faces: c
                .faces
                .iter()
                .map(|f| Face {
                    neighbour: number(&f.connection),
                    area: f.area,
                    normal: f.normal.flat(),
                })
                .collect(),
            points: c.points.iter().map(|p| p.flat()).collect(),
            contains: probes.iter().map(|p| c.contains(Flat::unflat(p))).collect(),
        }
    }

    /// The same in two dimensions (without haloes).
    pub fn cells_2d(points: &[Vec<f64>], probes: &[Vec<f64>]) -> Vec<VCell> {
        use super::TriangulationData;
        let all: Vec<glam::DVec2> = points.iter().map(|p| Flat::unflat(p)).collect();
        let extent = Extent::from_points(all.iter().copied())
            .unwrap()
            .including_periodic_images();
        let (t, map) = Triangulation::<TwoD>::construct_from_iter_custom_extent(
            all.iter().copied().enumerate().map(|(i, p)| {
                (
                    ParticleType::Local(ParticleId {
                        index: i as u32,
                        rank: 0,
                    }),
                    p,
                )
            }),
            &extent,
        );
        let data = TriangulationData::from_triangulation_and_map(t, map);
        data.construct_voronoi()
            .cells
            .iter()
            .map(|c| cell(c, probes))
            .collect()
    }

    pub fn distance<V: DVector<Float = f64> + Copy>(a: V, b: V) -> f64 {
        a.distance(b)
    }
}
