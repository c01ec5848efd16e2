use std::collections::BTreeMap;

use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::format_ident;
use quote::quote;
use syn::parse::Parse;
use syn::parse::ParseStream;
use syn::punctuated::Punctuated;
use syn::*;

#[proc_macro_attribute]
pub fn dimension(_args: TokenStream, input: TokenStream) -> TokenStream {
    let ast: ItemStruct = parse(input).unwrap();
    let name = &ast.ident;
    let fields: Vec<_> = ast.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote! {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, ::core::marker::ConstParamTy)]
        #ast
        #[allow(dead_code)]
        impl #name {
            pub const fn none() -> Self { Self { #(#fields: 0),* } }
            pub const fn dimension_mul(self, o: Self) -> Self { Self { #(#fields: self.#fields + o.#fields),* } }
            pub const fn dimension_div(self, o: Self) -> Self { Self { #(#fields: self.#fields - o.#fields),* } }
            pub const fn dimension_inv(self) -> Self { Self { #(#fields: -self.#fields),* } }
            pub const fn dimension_powi(self, n: i32) -> Self { Self { #(#fields: self.#fields * n),* } }
            pub const fn dimension_sqrt(self) -> Self {
                #( if self.#fields % 2 != 0 { panic!("square root of a dimension with odd exponent") } )*
                Self { #(#fields: self.#fields / 2),* }
            }
            pub const fn dimension_cbrt(self) -> Self {
                #( if self.#fields % 3 != 0 { panic!("cubic root of a dimension with exponent not divisible by three") } )*
                Self { #(#fields: self.#fields / 3),* }
            }
            pub fn exponents(&self) -> Vec<(&'static str, i32)> { vec![ #( (stringify!(#fields), self.#fields) ),* ] }
        }
    }
    .into()
}

type Dim = BTreeMap<String, i32>;

fn dmul(a: &Dim, b: &Dim, s: i32) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_insert(0) += s * v;
    }
    r.retain(|_, v| *v != 0);
    r
}

enum Rhs {
    Dim(Dim),
    Expr(Expr),
}

enum Item {
    Def(Ident, Rhs),
    Unit(Ident, Option<String>, Rhs),
    Const(Ident, Rhs),
}

struct System {
    quantity: Ident,
    dimension: Ident,
    items: Vec<Item>,
}

struct DimField(Ident, i32);
impl Parse for DimField {
    fn parse(i: ParseStream) -> Result<Self> {
        let id: Ident = i.parse()?;
        i.parse::<Token![:]>()?;
        let neg = i.parse::<Option<Token![-]>>()?.is_some();
        let n: LitInt = i.parse()?;
        let n: i32 = n.base10_parse()?;
        Ok(DimField(id, if neg { -n } else { n }))
    }
}

fn rhs(i: ParseStream) -> Result<Rhs> {
    if i.peek(token::Brace) {
        let c;
        braced!(c in i);
        let f: Punctuated<DimField, Token![,]> = Punctuated::parse_terminated(&c)?;
        let mut d = Dim::new();
        for DimField(k, v) in f {
            if v != 0 {
                d.insert(k.to_string(), v);
            }
        }
        Ok(Rhs::Dim(d))
    } else {
        Ok(Rhs::Expr(i.parse()?))
    }
}

impl Parse for Item {
    fn parse(i: ParseStream) -> Result<Self> {
        let kw: Ident = i.parse()?;
        match kw.to_string().as_str() {
            "def" => {
                let n = i.parse()?;
                i.parse::<Token![=]>()?;
                Ok(Item::Def(n, rhs(i)?))
            }
            "unit" => {
                let (n, s) = if i.peek(token::Paren) {
                    let c;
                    parenthesized!(c in i);
                    let n: Ident = c.parse()?;
                    c.parse::<Token![,]>()?;
                    let s: LitStr = c.parse()?;
                    (n, Some(s.value()))
                } else {
                    (i.parse()?, None)
                };
                i.parse::<Token![=]>()?;
                Ok(Item::Unit(n, s, rhs(i)?))
            }
            "constant" => {
                let n = i.parse()?;
                i.parse::<Token![=]>()?;
                Ok(Item::Const(n, rhs(i)?))
            }
            _ => Err(Error::new(kw.span(), "expected def, unit or constant")),
        }
    }
}

impl Parse for System {
    fn parse(i: ParseStream) -> Result<Self> {
        let quantity = i.parse()?;
        i.parse::<Token![,]>()?;
        let dimension = i.parse()?;
        i.parse::<Token![,]>()?;
        let c;
        bracketed!(c in i);
        let items: Punctuated<Item, Token![,]> = Punctuated::parse_terminated(&c)?;
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(System {
            quantity,
            dimension,
            items: items.into_iter().collect(),
        })
    }
}

type Env = BTreeMap<String, (f64, Dim)>;

fn eval(e: &Expr, env: &Env) -> Option<(f64, Dim)> {
    Some(match e {
        Expr::Lit(ExprLit {
            lit: Lit::Float(f), ..
        }) => (f.base10_parse().unwrap(), Dim::new()),
        Expr::Lit(ExprLit {
            lit: Lit::Int(f), ..
        }) => (f.base10_parse::<i64>().unwrap() as f64, Dim::new()),
        Expr::Paren(p) => eval(&p.expr, env)?,
        Expr::Path(p) => env.get(&p.path.get_ident().unwrap().to_string())?.clone(),
        Expr::Binary(b) => {
            let (x, y) = (eval(&b.left, env)?, eval(&b.right, env)?);
            match b.op {
                BinOp::Mul(_) => (x.0 * y.0, dmul(&x.1, &y.1, 1)),
                BinOp::Div(_) => (x.0 / y.0, dmul(&x.1, &y.1, -1)),
                _ => panic!("unexpected operator in unit expression"),
            }
        }
        _ => panic!("unexpected expression in unit system"),
    })
}

#[proc_macro]
pub fn unit_system(input: TokenStream) -> TokenStream {
    let sys: System = parse(input).unwrap();
    let q = &sys.quantity;
    let dim_ty = &sys.dimension;
    // The definitions may refer to later ones: iterate until everything is known.
    let mut env = Env::new();
    loop {
        let mut progress = false;
        let mut missing = false;
        for it in &sys.items {
            let (n, r) = match it {
                Item::Def(n, r) | Item::Unit(n, _, r) | Item::Const(n, r) => (n, r),
            };
            if env.contains_key(&n.to_string()) {
                continue;
            }
            let v = match r {
                Rhs::Dim(d) => Some((1.0, d.clone())),
                Rhs::Expr(e) => eval(e, &env),
            };
            match v {
                Some(v) => {
                    env.insert(n.to_string(), v);
                    progress = true;
                }
                None => missing = true,
            }
        }
        if !missing {
            break;
        }
        assert!(progress, "unresolvable definitions in unit system");
    }
    let dim_expr = |d: &Dim| -> T2 {
        let ks: Vec<_> = d.keys().map(|k| format_ident!("{}", k)).collect();
        let vs: Vec<_> = d.values().collect();
        quote! { #dim_ty { #(#ks: #vs,)* ..#dim_ty::none() } }
    };
    // Struct update syntax is not allowed in const generics of aliases, so name each dimension.
    let mut consts = T2::new();
    let (mut al_f, mut al_2, mut al_3) = (T2::new(), T2::new(), T2::new());
    let mut units = T2::new();
    let mut constants = T2::new();
    let mut table = T2::new();
    for it in &sys.items {
        match it {
            Item::Def(n, _) => {
                let c = format_ident!("DIM_{}", n);
                let d = dim_expr(&env[&n.to_string()].1);
                consts.extend(quote! { #[allow(non_upper_case_globals)] pub const #c: #dim_ty = #d; });
                al_f.extend(quote! { pub type #n = super::#q<::core::primitive::f64, { super::#c }>; });
                al_2.extend(quote! { pub type #n = super::#q<::glam::DVec2, { super::#c }>; });
                al_3.extend(quote! { pub type #n = super::#q<::glam::DVec3, { super::#c }>; });
            }
            Item::Unit(n, s, _) => {
                let c = format_ident!("UDIM_{}", n);
                let (f, d) = &env[&n.to_string()];
                let de = dim_expr(d);
                let in_n = format_ident!("in_{}", n);
                consts.extend(quote! { #[allow(non_upper_case_globals)] pub const #c: #dim_ty = #de; });
                units.extend(quote! {
                    #[allow(dead_code)]
                    impl #q<::core::primitive::f64, { #c }> {
                        pub fn #n(val: ::core::primitive::f64) -> Self { Self(val * #f) }
                        pub fn #in_n(&self) -> ::core::primitive::f64 { self.0 / #f }
                    }
                    #[allow(dead_code)]
                    impl #q<::glam::DVec2, { #c }> {
                        pub fn #n(x: ::core::primitive::f64, y: ::core::primitive::f64) -> Self { Self(::glam::DVec2::new(x, y) * #f) }
                        pub fn #in_n(&self) -> ::glam::DVec2 { self.0 / #f }
                    }
                    #[allow(dead_code)]
                    impl #q<::glam::DVec3, { #c }> {
                        pub fn #n(x: ::core::primitive::f64, y: ::core::primitive::f64, z: ::core::primitive::f64) -> Self { Self(::glam::DVec3::new(x, y, z) * #f) }
                        pub fn #in_n(&self) -> ::glam::DVec3 { self.0 / #f }
                    }
                });
                if let Some(s) = s {
                    table.extend(quote! { (#s, #f, #c), });
                }
            }
            Item::Const(n, _) => {
                let c = format_ident!("CDIM_{}", n);
                let (f, d) = &env[&n.to_string()];
                let de = dim_expr(d);
                consts.extend(quote! { #[allow(non_upper_case_globals)] pub const #c: #dim_ty = #de; });
                constants.extend(quote! { pub const #n: #q<::core::primitive::f64, { #c }> = #q(#f); });
            }
        }
    }
    let f = quote!(::core::primitive::f64);
    let mut ops = T2::new();
    // (lhs storage, rhs storage, output storage)
    let (v2, v3) = (quote!(::glam::DVec2), quote!(::glam::DVec3));
    for (l, r, o) in [
        (&f, &f, &f),
        (&v2, &f, &v2),
        (&v3, &f, &v3),
        (&f, &v2, &v2),
        (&f, &v3, &v3),
    ] {
        ops.extend(quote! {
            impl<const L: #dim_ty, const R: #dim_ty> ::std::ops::Mul<#q<#r, R>> for #q<#l, L>
            where #q<#o, { L.dimension_mul(R) }>: {
                type Output = #q<#o, { L.dimension_mul(R) }>;
                fn mul(self, rhs: #q<#r, R>) -> Self::Output { #q(self.0 * rhs.0) }
            }
            impl<const R: #dim_ty> ::std::ops::Mul<#q<#r, R>> for #l {
                type Output = #q<#o, R>;
                fn mul(self, rhs: #q<#r, R>) -> Self::Output { #q(self * rhs.0) }
            }
            impl<const L: #dim_ty> ::std::ops::Mul<#r> for #q<#l, L> {
                type Output = #q<#o, L>;
                fn mul(self, rhs: #r) -> Self::Output { #q(self.0 * rhs) }
            }
        });
    }
    for l in [&f, &v2, &v3] {
        let r = &f;
        ops.extend(quote! {
            impl<const L: #dim_ty, const R: #dim_ty> ::std::ops::Div<#q<#r, R>> for #q<#l, L>
            where #q<#l, { L.dimension_div(R) }>: {
                type Output = #q<#l, { L.dimension_div(R) }>;
                fn div(self, rhs: #q<#r, R>) -> Self::Output { #q(self.0 / rhs.0) }
            }
            impl<const R: #dim_ty> ::std::ops::Div<#q<#r, R>> for #l
            where #q<#l, { R.dimension_inv() }>: {
                type Output = #q<#l, { R.dimension_inv() }>;
                fn div(self, rhs: #q<#r, R>) -> Self::Output { #q(self / rhs.0) }
            }
            impl<const L: #dim_ty> ::std::ops::Div<#r> for #q<#l, L> {
                type Output = #q<#l, L>;
                fn div(self, rhs: #r) -> Self::Output { #q(self.0 / rhs) }
            }
            impl<const L: #dim_ty> ::std::ops::MulAssign<#r> for #q<#l, L> {
                fn mul_assign(&mut self, rhs: #r) { self.0 = self.0 * rhs; }
            }
            impl<const L: #dim_ty> ::std::ops::DivAssign<#r> for #q<#l, L> {
                fn div_assign(&mut self, rhs: #r) { self.0 = self.0 / rhs; }
            }
            impl<const L: #dim_ty> ::std::ops::MulAssign<#q<#r, { #dim_ty::none() }>> for #q<#l, L> {
                fn mul_assign(&mut self, rhs: #q<#r, { #dim_ty::none() }>) { self.0 = self.0 * rhs.0; }
            }
            impl<const L: #dim_ty> ::std::ops::DivAssign<#q<#r, { #dim_ty::none() }>> for #q<#l, L> {
                fn div_assign(&mut self, rhs: #q<#r, { #dim_ty::none() }>) { self.0 = self.0 / rhs.0; }
            }
            impl ::std::ops::Add<#l> for #q<#l, { #dim_ty::none() }> {
                type Output = Self;
                fn add(self, rhs: #l) -> Self { #q(self.0 + rhs) }
            }
            impl ::std::ops::Sub<#l> for #q<#l, { #dim_ty::none() }> {
                type Output = Self;
                fn sub(self, rhs: #l) -> Self { #q(self.0 - rhs) }
            }
            impl ::std::ops::Add<#q<#l, { #dim_ty::none() }>> for #l {
                type Output = #q<#l, { #dim_ty::none() }>;
                fn add(self, rhs: #q<#l, { #dim_ty::none() }>) -> Self::Output { #q(self + rhs.0) }
            }
            impl ::std::ops::Sub<#q<#l, { #dim_ty::none() }>> for #l {
                type Output = #q<#l, { #dim_ty::none() }>;
                fn sub(self, rhs: #q<#l, { #dim_ty::none() }>) -> Self::Output { #q(self - rhs.0) }
            }
            impl ::std::ops::AddAssign<#l> for #q<#l, { #dim_ty::none() }> {
                fn add_assign(&mut self, rhs: #l) { self.0 = self.0 + rhs; }
            }
            impl ::std::ops::SubAssign<#l> for #q<#l, { #dim_ty::none() }> {
                fn sub_assign(&mut self, rhs: #l) { self.0 = self.0 - rhs; }
            }
            impl From<#l> for #q<#l, { #dim_ty::none() }> {
                fn from(x: #l) -> Self { #q(x) }
            }
            impl PartialEq<#l> for #q<#l, { #dim_ty::none() }> {
                fn eq(&self, o: &#l) -> bool { self.0 == *o }
            }
        });
    }
    ops.extend(quote! {
        impl PartialOrd<#f> for #q<#f, { #dim_ty::none() }> {
            fn partial_cmp(&self, o: &#f) -> Option<::std::cmp::Ordering> { self.0.partial_cmp(o) }
        }
    });
    for (v, n) in [(&v2, 2usize), (&v3, 3usize)] {
        let comps: Vec<_> = ["x", "y", "z"][..n].iter().map(|s| format_ident!("{}", s)).collect();
        let news: Vec<_> = comps.iter().map(|c| format_ident!("new_{}", c)).collect();
        let sets: Vec<_> = comps.iter().map(|c| format_ident!("set_{}", c)).collect();
        let cross = if n == 3 {
            quote! {
                pub fn cross<const R: #dim_ty>(self, o: #q<#v, R>) -> #q<#v, { D.dimension_mul(R) }>
                where #q<#v, { D.dimension_mul(R) }>: { #q(self.0.cross(o.0)) }
            }
        } else {
            quote! {}
        };
        ops.extend(quote! {
            #[allow(dead_code)]
            impl<const D: #dim_ty> #q<#v, D> {
                pub fn new(#(#comps: #q<#f, D>),*) -> Self { Self(<#v>::new(#(#comps.0),*)) }
                #( pub fn #news(#comps: #q<#f, D>) -> Self { let mut v = <#v>::ZERO; v.#comps = #comps.0; Self(v) } )*
                #( pub fn #comps(&self) -> #q<#f, D> { #q(self.0.#comps) } )*
                #( pub fn #sets(&mut self, v: #q<#f, D>) { self.0.#comps = v.0; } )*
                pub fn zero() -> Self { Self(<#v>::ZERO) }
                pub fn length(&self) -> #q<#f, D> { #q(self.0.length()) }
                pub fn distance(&self, o: &Self) -> #q<#f, D> { #q(self.0.distance(o.0)) }
                pub fn normalize(&self) -> #q<#v, { #dim_ty::none() }> { #q(self.0.normalize()) }
                pub fn min(self, o: Self) -> Self { Self(self.0.min(o.0)) }
                pub fn max(self, o: Self) -> Self { Self(self.0.max(o.0)) }
                pub fn abs(self) -> Self { Self(self.0.abs()) }
                pub fn max_element(self) -> #q<#f, D> { #q(self.0.max_element()) }
                pub fn min_element(self) -> #q<#f, D> { #q(self.0.min_element()) }
                pub fn is_finite(&self) -> bool { self.0.is_finite() }
                pub fn dot<const R: #dim_ty>(self, o: #q<#v, R>) -> #q<#f, { D.dimension_mul(R) }>
                where #q<#f, { D.dimension_mul(R) }>: { #q(self.0.dot(o.0)) }
                pub fn length_squared(&self) -> #q<#f, { D.dimension_powi(2) }>
                where #q<#f, { D.dimension_powi(2) }>: { #q(self.0.length_squared()) }
                pub fn distance_squared(&self, o: Self) -> #q<#f, { D.dimension_powi(2) }>
                where #q<#f, { D.dimension_powi(2) }>: { #q(self.0.distance_squared(o.0)) }
                #cross
            }
            unsafe impl<const D: #dim_ty> ::mpi::traits::Equivalence for #q<#v, D> {
                type Out = ::mpi::datatype::DatatypeRef<'static>;
                fn equivalent_datatype() -> Self::Out { Self::static_datatype() }
            }
            impl<const D: #dim_ty> #q<#v, D> {
                fn static_datatype() -> ::mpi::datatype::DatatypeRef<'static> {
                    struct W(::mpi::datatype::UserDatatype);
                    unsafe impl Send for W {}
                    unsafe impl Sync for W {}
                    static DT: ::once_cell::sync::OnceCell<W> = ::once_cell::sync::OnceCell::new();
                    DT.get_or_init(|| W(::mpi::datatype::UserDatatype::contiguous(#n as i32, &<#f as ::mpi::traits::Equivalence>::equivalent_datatype()))).0.as_ref()
                }
            }
            unsafe impl<const D: #dim_ty> ::hdf5::H5Type for #q<#v, D> {
                fn h5_width() -> usize { #n }
                fn to_words(&self, out: &mut Vec<u64>) { #( out.push(self.0.#comps.to_bits()); )* }
                fn from_words(w: &[u64]) -> Self {
                    let mut v = <#v>::ZERO; let mut i = 0;
                    #( v.#comps = #f::from_bits(w[i]); i += 1; )*
                    let _ = i;
                    Self(v)
                }
                fn kind() -> ::hdf5::Kind { ::hdf5::Kind::F64 }
            }
            impl<'de, const D: #dim_ty> ::serde::Deserialize<'de> for #q<#v, D> {
                fn deserialize<De: ::serde::Deserializer<'de>>(de: De) -> Result<Self, De::Error> {
                    use ::serde::de::Error;
                    let s = <String as ::serde::Deserialize>::deserialize(de)?;
                    let s = s.trim();
                    let close = s.rfind(')').ok_or_else(|| De::Error::custom("expected a vector: (x y ..) unit"))?;
                    let inner = s[..close].trim_start_matches('(');
                    let nums: Vec<#f> = inner.split(|c: char| c == ',' || c.is_whitespace()).filter(|x| !x.is_empty())
                        .map(|x| x.parse::<#f>().map_err(|e| De::Error::custom(format!("{e}")))).collect::<Result<_, _>>()?;
                    if nums.len() != #n { return Err(De::Error::custom("wrong number of components")); }
                    let f = parse_unit(&s[close + 1..], D).map_err(De::Error::custom)?;
                    let mut v = <#v>::ZERO; let mut i = 0;
                    #( v.#comps = nums[i] * f; i += 1; )*
                    let _ = i;
                    Ok(Self(v))
                }
            }
            impl<const D: #dim_ty> ::serde::Serialize for #q<#v, D> {
                fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_str(&format!("({}) {}", [#( format!("{:?}", self.0.#comps) ),*].join(" "), unit_string(D)))
                }
            }
        });
    }
    quote! {
        #consts
        pub struct #q<S, const D: #dim_ty>(pub(crate) S);
        impl<S: Clone, const D: #dim_ty> Clone for #q<S, D> { fn clone(&self) -> Self { Self(self.0.clone()) } }
        impl<S: Copy, const D: #dim_ty> Copy for #q<S, D> {}
        impl<S: PartialEq, const D: #dim_ty> PartialEq for #q<S, D> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
        impl<S: PartialOrd, const D: #dim_ty> PartialOrd for #q<S, D> {
            fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> { self.0.partial_cmp(&o.0) }
        }
        impl<S: Default, const D: #dim_ty> Default for #q<S, D> { fn default() -> Self { Self(S::default()) } }
        impl<S: ::std::fmt::Debug, const D: #dim_ty> ::std::fmt::Debug for #q<S, D> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.0.fmt(f)?; write!(f, " {}", unit_string(D))
            }
        }
        impl<S: ::std::fmt::Display, const D: #dim_ty> ::std::fmt::Display for #q<S, D> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.0.fmt(f)?; write!(f, " {}", unit_string(D))
            }
        }
        impl<S: ::std::ops::Add<Output = S>, const D: #dim_ty> ::std::ops::Add for #q<S, D> { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } }
        impl<S: ::std::ops::Sub<Output = S>, const D: #dim_ty> ::std::ops::Sub for #q<S, D> { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
        impl<S: ::std::ops::Neg<Output = S>, const D: #dim_ty> ::std::ops::Neg for #q<S, D> { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
        impl<S: ::std::ops::AddAssign, const D: #dim_ty> ::std::ops::AddAssign for #q<S, D> { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
        impl<S: ::std::ops::SubAssign, const D: #dim_ty> ::std::ops::SubAssign for #q<S, D> { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
        impl<S: Default + ::std::ops::Add<Output = S>, const D: #dim_ty> ::std::iter::Sum for #q<S, D> {
            fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self(S::default()), |a, b| Self(a.0 + b.0)) }
        }
        impl<'a, S: Default + Copy + ::std::ops::Add<Output = S> + 'a, const D: #dim_ty> ::std::iter::Sum<&'a Self> for #q<S, D> {
            fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self { it.fold(Self(S::default()), |a, b| Self(a.0 + b.0)) }
        }
        #[allow(dead_code)]
        impl<S, const D: #dim_ty> #q<S, D> {
            pub const fn new_unchecked(s: S) -> Self { Self(s) }
            pub fn value_unchecked(self) -> S { self.0 }
        }
        #[allow(dead_code)]
        impl<S: Copy> #q<S, { #dim_ty::none() }> {
            pub fn value(&self) -> S { self.0 }
        }
        impl<S> ::std::ops::Deref for #q<S, { #dim_ty::none() }> { type Target = S; fn deref(&self) -> &S { &self.0 } }
        impl<S> ::std::ops::DerefMut for #q<S, { #dim_ty::none() }> { fn deref_mut(&mut self) -> &mut S { &mut self.0 } }
        #ops
        #[allow(dead_code)]
        impl<const D: #dim_ty> #q<#f, D> {
            pub const fn zero() -> Self { Self(0.0) }
            pub fn abs(self) -> Self { Self(self.0.abs()) }
            pub fn min<T: Into<Self>>(self, o: T) -> Self { Self(self.0.min(o.into().0)) }
            pub fn max<T: Into<Self>>(self, o: T) -> Self { Self(self.0.max(o.into().0)) }
            pub fn clamp<T: Into<Self>, U: Into<Self>>(self, a: T, b: U) -> Self { Self(self.0.clamp(a.into().0, b.into().0)) }
            pub fn is_negative(&self) -> bool { self.0 < 0.0 }
            pub fn is_positive(&self) -> bool { self.0 > 0.0 }
            pub fn is_nan(&self) -> bool { self.0.is_nan() }
            pub fn is_finite(&self) -> bool { self.0.is_finite() }
            pub fn is_infinite(&self) -> bool { self.0.is_infinite() }
            pub fn is_sign_negative(&self) -> bool { self.0.is_sign_negative() }
            pub fn is_sign_positive(&self) -> bool { self.0.is_sign_positive() }
            pub fn signum(&self) -> #f { self.0.signum() }
            pub fn squared(&self) -> #q<#f, { D.dimension_powi(2) }> where #q<#f, { D.dimension_powi(2) }>: { #q(self.0.powi(2)) }
            pub fn cubed(&self) -> #q<#f, { D.dimension_powi(3) }> where #q<#f, { D.dimension_powi(3) }>: { #q(self.0.powi(3)) }
            pub fn powi<const I: i32>(&self) -> #q<#f, { D.dimension_powi(I) }> where #q<#f, { D.dimension_powi(I) }>: { #q(self.0.powi(I)) }
            pub fn sqrt(&self) -> #q<#f, { D.dimension_sqrt() }> where #q<#f, { D.dimension_sqrt() }>: { #q(self.0.sqrt()) }
            pub fn cbrt(&self) -> #q<#f, { D.dimension_cbrt() }> where #q<#f, { D.dimension_cbrt() }>: { #q(self.0.cbrt()) }
        }
        #[allow(dead_code)]
        impl #q<#f, { #dim_ty::none() }> {
            pub fn exp(self) -> Self { Self(self.0.exp()) }
            pub fn ln(self) -> Self { Self(self.0.ln()) }
            pub fn log10(self) -> Self { Self(self.0.log10()) }
            pub fn log2(self) -> Self { Self(self.0.log2()) }
            pub fn ceil(self) -> Self { Self(self.0.ceil()) }
            pub fn floor(self) -> Self { Self(self.0.floor()) }
        }
        unsafe impl<const D: #dim_ty> ::mpi::traits::Equivalence for #q<#f, D> {
            type Out = ::mpi::datatype::SystemDatatype;
            fn equivalent_datatype() -> Self::Out { <#f as ::mpi::traits::Equivalence>::equivalent_datatype() }
        }
        unsafe impl<const D: #dim_ty> ::hdf5::H5Type for #q<#f, D> {
            fn h5_width() -> usize { 1 }
            fn to_words(&self, out: &mut Vec<u64>) { out.push(self.0.to_bits()); }
            fn from_words(w: &[u64]) -> Self { Self(#f::from_bits(w[0])) }
            fn kind() -> ::hdf5::Kind { ::hdf5::Kind::F64 }
        }
        fn unit_table() -> Vec<(&'static str, #f, #dim_ty)> { vec![ #table ] }
        /// Parses "kpc h^-1 a^-1" and the like; returns the factor to base units.
        fn parse_unit(s: &str, expected: #dim_ty) -> Result<#f, String> {
            let s = s.trim();
            let table = unit_table();
            // A whole symbol such as "g/cm^3" first.
            if let Some((_, f, d)) = table.iter().find(|(n, _, d)| *n == s && *d == expected) {
                let _ = d;
                return Ok(*f);
            }
            let mut dim = #dim_ty::none();
            let mut factor = 1.0;
            for part in s.split_whitespace() {
                let (name, exp) = match part.split_once('^') {
                    Some((n, e)) => (n, e.parse::<i32>().map_err(|_| format!("bad exponent in {part}"))?),
                    None => (part, 1),
                };
                let (_, f, d) = table.iter().find(|(n, _, _)| *n == name).ok_or_else(|| format!("unknown unit {name}"))?;
                factor *= f.powi(exp);
                dim = dim.dimension_mul(d.dimension_powi(exp));
            }
            if dim == expected { Ok(factor) } else { Err(format!("unit {s} has dimension {dim:?}, expected {expected:?}")) }
        }
        fn unit_string(d: #dim_ty) -> String {
            d.exponents().into_iter().filter(|(_, e)| *e != 0).map(|(n, e)| {
                let sym = match n { "length" => "m", "time" => "s", "mass" => "kg", "temperature" => "K", o => o };
                if e == 1 { sym.to_string() } else { format!("{sym}^{e}") }
            }).collect::<Vec<_>>().join(" ")
        }
        impl<'de, const D: #dim_ty> ::serde::Deserialize<'de> for #q<#f, D> {
            fn deserialize<De: ::serde::Deserializer<'de>>(de: De) -> Result<Self, De::Error> {
                struct V(#dim_ty);
                impl<'de> ::serde::de::Visitor<'de> for V {
                    type Value = #f;
                    fn expecting(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "a number with unit") }
                    fn visit_f64<E: ::serde::de::Error>(self, v: #f) -> Result<#f, E> {
                        if self.0 == #dim_ty::none() { Ok(v) } else { Err(E::custom("missing unit")) }
                    }
                    fn visit_i64<E: ::serde::de::Error>(self, v: i64) -> Result<#f, E> { self.visit_f64(v as #f) }
                    fn visit_u64<E: ::serde::de::Error>(self, v: u64) -> Result<#f, E> { self.visit_f64(v as #f) }
                    fn visit_str<E: ::serde::de::Error>(self, s: &str) -> Result<#f, E> {
                        let s = s.trim();
                        let (num, unit) = match s.split_once(char::is_whitespace) { Some(x) => x, None => (s, "") };
                        let num: #f = num.parse().map_err(|e| E::custom(format!("{e}")))?;
                        Ok(num * parse_unit(unit, self.0).map_err(E::custom)?)
                    }
                }
                de.deserialize_any(V(D)).map(Self)
            }
        }
        impl<const D: #dim_ty> ::serde::Serialize for #q<#f, D> {
            fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                if D == #dim_ty::none() { s.serialize_f64(self.0) } else { s.serialize_str(&format!("{:?} {}", self.0, unit_string(D))) }
            }
        }
        pub mod f64 { #al_f }
        pub mod dvec2 { #al_2 }
        pub mod dvec3 { #al_3 }
        #units
        #constants
    }
    .into()
}
