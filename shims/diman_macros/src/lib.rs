use std::collections::BTreeMap;

use proc_macro::TokenStream;
use proc_macro2::{Delimiter, Group, Ident, TokenStream as T2, TokenTree};
use quote::quote;

#[proc_macro_attribute]
pub fn dimension(_args: TokenStream, input: TokenStream) -> TokenStream {
    let s: syn::ItemStruct = syn::parse(input).unwrap();
    let name = &s.ident;
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    quote! {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, std::marker::ConstParamTy)]
        #s
        impl #name {
            pub const fn none() -> Self {
                Self { #(#f: 0),* }
            }
            pub const fn dimension_mul(self, o: Self) -> Self {
                Self { #(#f: self.#f + o.#f),* }
            }
            pub const fn dimension_div(self, o: Self) -> Self {
                Self { #(#f: self.#f - o.#f),* }
            }
            pub const fn dimension_inv(self) -> Self {
                Self { #(#f: -self.#f),* }
            }
            pub const fn dimension_powi(self, n: i32) -> Self {
                Self { #(#f: self.#f * n),* }
            }
            pub const fn dimension_sqrt(self) -> Self {
                #(if self.#f % 2 != 0 { panic!("Cannot take square root of this dimension") })*
                Self { #(#f: self.#f / 2),* }
            }
            pub const fn dimension_cbrt(self) -> Self {
                #(if self.#f % 3 != 0 { panic!("Cannot take cubic root of this dimension") })*
                Self { #(#f: self.#f / 3),* }
            }
        }
    }
    .into()
}

type Dim = BTreeMap<String, i32>;
#[derive(Clone, Debug)]
struct Val {
    dim: Dim,
    factor: f64,
}

fn combine(a: &Dim, b: &Dim, sign: i32) -> Dim {
    let mut r = a.clone();
    for (k, v) in b {
        *r.entry(k.clone()).or_insert(0) += sign * v;
    }
    r.retain(|_, v| *v != 0);
    r
}

fn factor(t: &TokenTree, known: &BTreeMap<String, Val>) -> Option<Val> {
    match t {
        TokenTree::Ident(i) => known.get(&i.to_string()).cloned(),
        TokenTree::Literal(l) => {
            let factor: f64 = l.to_string().replace('_', "").parse().unwrap();
            Some(Val { dim: Dim::new(), factor })
        }
        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(Val {
            dim: fields(g),
            factor: 1.0,
        }),
        TokenTree::Group(g) => eval(&g.stream().into_iter().collect::<Vec<_>>(), known),
        _ => panic!("unexpected token {t}"),
    }
}

fn eval(ts: &[TokenTree], known: &BTreeMap<String, Val>) -> Option<Val> {
    let mut r = factor(&ts[0], known)?;
    let mut i = 1;
    while i < ts.len() {
        let b = factor(&ts[i + 1], known)?;
        match ts[i].to_string().as_str() {
            "*" => {
                r.dim = combine(&r.dim, &b.dim, 1);
                r.factor *= b.factor;
            }
            "/" => {
                r.dim = combine(&r.dim, &b.dim, -1);
                r.factor /= b.factor;
            }
            o => panic!("unexpected operator {o}"),
        }
        i += 2;
    }
    Some(r)
}

fn fields(g: &Group) -> Dim {
    let mut d = Dim::new();
    let ts: Vec<TokenTree> = g.stream().into_iter().collect();
    for part in ts.split(|t| t.to_string() == ",").filter(|p| !p.is_empty()) {
        let v: String = part[2..].iter().map(|t| t.to_string()).collect();
        let v: i32 = v.parse().unwrap();
        if v != 0 {
            d.insert(part[0].to_string(), v);
        }
    }
    d
}

enum Kind {
    Def,
    Unit(String),
    Constant,
}

#[proc_macro]
pub fn unit_system(input: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = T2::from(input).into_iter().collect();
    let (q, dim) = match (&ts[0], &ts[2]) {
        (TokenTree::Ident(a), TokenTree::Ident(b)) => (a.clone(), b.clone()),
        _ => panic!(),
    };
    let list: Vec<TokenTree> = match &ts[4] {
        TokenTree::Group(g) => g.stream().into_iter().collect(),
        _ => panic!(),
    };
    let mut entries: Vec<(Kind, Ident, Vec<TokenTree>)> = vec![];
    for part in list.split(|t| t.to_string() == ",").filter(|p| !p.is_empty()) {
        let kind = part[0].to_string();
        let (name, sym) = match &part[1] {
            TokenTree::Ident(i) => (i.clone(), String::new()),
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let lit: syn::LitStr = syn::parse2(inner[2].clone().into()).unwrap();
                match &inner[0] {
                    TokenTree::Ident(i) => (i.clone(), lit.value()),
                    _ => panic!(),
                }
            }
            _ => panic!(),
        };
        let kind = match kind.as_str() {
            "def" => Kind::Def,
            "unit" => Kind::Unit(sym),
            "constant" => Kind::Constant,
            k => panic!("unknown entry {k}"),
        };
        entries.push((kind, name, part[3..].to_vec()));
    }
    // Entries may refer to later ones.
    let mut known: BTreeMap<String, Val> = BTreeMap::new();
    loop {
        let before = known.len();
        for (_, name, expr) in &entries {
            if !known.contains_key(&name.to_string()) {
                if let Some(v) = eval(expr, &known) {
                    known.insert(name.to_string(), v);
                }
            }
        }
        if known.len() == before {
            break;
        }
    }
    let dim_tokens = |d: &Dim| -> T2 {
        let f: Vec<_> = d.keys().map(|k| Ident::new(k, proc_macro2::Span::call_site())).collect();
        let v = d.values();
        quote! { #dim { #(#f: #v,)* ..#dim::none() } }
    };
    let (mut aliases, mut aliases2, mut aliases3) = (T2::new(), T2::new(), T2::new());
    let (mut units, mut constants, mut table) = (T2::new(), T2::new(), T2::new());
    for (kind, name, _) in &entries {
        let v = known.get(&name.to_string()).unwrap_or_else(|| panic!("unresolved: {name}"));
        let d = dim_tokens(&v.dim);
        let factor = v.factor;
        match kind {
            Kind::Def => {
                aliases.extend(quote! { pub type #name = super::#q<f64, { #d }>; });
                aliases2.extend(quote! { pub type #name = super::#q<diman::__reexports::glam::DVec2, { #d }>; });
                aliases3.extend(quote! { pub type #name = super::#q<diman::__reexports::glam::DVec3, { #d }>; });
            }
            Kind::Unit(sym) => {
                let into = Ident::new(&format!("in_{name}"), name.span());
                units.extend(quote! {
                    impl #q<f64, { #d }> {
                        pub const fn #name(v: f64) -> Self { #q(v * #factor) }
                        pub fn #into(self) -> f64 { self.0 / #factor }
                    }
                    impl #q<diman::__reexports::glam::DVec2, { #d }> {
                        pub fn #name(x: f64, y: f64) -> Self {
                            #q(diman::__reexports::glam::DVec2::new(x * #factor, y * #factor))
                        }
                        pub fn #into(self) -> diman::__reexports::glam::DVec2 { self.0 / #factor }
                    }
                    impl #q<diman::__reexports::glam::DVec3, { #d }> {
                        pub fn #name(x: f64, y: f64, z: f64) -> Self {
                            #q(diman::__reexports::glam::DVec3::new(x * #factor, y * #factor, z * #factor))
                        }
                        pub fn #into(self) -> diman::__reexports::glam::DVec3 { self.0 / #factor }
                    }
                });
                table.extend(quote! { (#d, #sym, #factor), });
            }
            Kind::Constant => {
                constants.extend(quote! { pub const #name: #q<f64, { #d }> = #q(#factor); });
            }
        }
    }
    let mut out = quote! {
        #[derive(Clone, Copy, Default)]
        #[repr(transparent)]
        pub struct #q<S, const D: #dim>(pub S);

        pub mod f64 {
            use super::#dim;
            #aliases
        }
        pub mod dvec2 {
            use super::#dim;
            #aliases2
        }
        pub mod dvec3 {
            use super::#dim;
            #aliases3
        }
        #units
        #constants
        pub static UNITS: &[(#dim, &str, f64)] = &[#table];

        fn unit_from_text(s: &str) -> Option<(#dim, f64)> {
            if s.is_empty() {
                return Some((#dim::none(), 1.0));
            }
            if let Some((d, _, f)) = UNITS.iter().find(|(_, n, _)| *n == s) {
                return Some((*d, *f));
            }
            let (mut d, mut f) = (#dim::none(), 1.0);
            for part in s.split_whitespace() {
                let (name, e) = part.split_once('^').unwrap_or((part, "1"));
                let e: i32 = e.parse().ok()?;
                let (pd, _, pf) = UNITS.iter().find(|(_, n, _)| *n == name)?;
                d = d.dimension_mul(pd.dimension_powi(e));
                f *= pf.powi(e);
            }
            Some((d, f))
        }

        impl<S, const D: #dim> #q<S, D> {
            pub fn new_unchecked(s: S) -> Self { #q(s) }
            pub fn value_unchecked(self) -> S { self.0 }
        }
        impl<S> #q<S, { #dim::none() }> {
            pub fn value(self) -> S { self.0 }
        }
        impl<S> std::ops::Deref for #q<S, { #dim::none() }> {
            type Target = S;
            fn deref(&self) -> &S { &self.0 }
        }
        impl From<f64> for #q<f64, { #dim::none() }> {
            fn from(s: f64) -> Self { #q(s) }
        }

        impl<S: PartialEq, const D: #dim> PartialEq for #q<S, D> {
            fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
        }
        impl<S: PartialOrd, const D: #dim> PartialOrd for #q<S, D> {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) }
        }
        impl PartialEq<f64> for #q<f64, { #dim::none() }> {
            fn eq(&self, o: &f64) -> bool { self.0 == *o }
        }
        impl PartialOrd<f64> for #q<f64, { #dim::none() }> {
            fn partial_cmp(&self, o: &f64) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) }
        }
        impl<S: std::fmt::Debug, const D: #dim> std::fmt::Debug for #q<S, D> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let unit = UNITS.iter().find(|(d, n, f)| *d == D && *f == 1.0 && !n.is_empty()).map(|(_, n, _)| *n);
                match unit {
                    Some(n) => write!(f, "{:?} {}", self.0, n),
                    None if D == #dim::none() => self.0.fmt(f),
                    None => write!(f, "{:?} {:?}", self.0, D),
                }
            }
        }
        impl<S: std::ops::Add<S, Output = S>, const D: #dim> std::ops::Add for #q<S, D> {
            type Output = Self;
            fn add(self, o: Self) -> Self { #q(self.0 + o.0) }
        }
        impl<S: std::ops::Sub<S, Output = S>, const D: #dim> std::ops::Sub for #q<S, D> {
            type Output = Self;
            fn sub(self, o: Self) -> Self { #q(self.0 - o.0) }
        }
        impl<S: std::ops::Neg<Output = S>, const D: #dim> std::ops::Neg for #q<S, D> {
            type Output = Self;
            fn neg(self) -> Self { #q(-self.0) }
        }
        impl<S: std::ops::AddAssign<S>, const D: #dim> std::ops::AddAssign for #q<S, D> {
            fn add_assign(&mut self, o: Self) { self.0 += o.0 }
        }
        impl<S: std::ops::SubAssign<S>, const D: #dim> std::ops::SubAssign for #q<S, D> {
            fn sub_assign(&mut self, o: Self) { self.0 -= o.0 }
        }
        impl<const D: #dim> std::iter::Sum for #q<f64, D> {
            fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
                let mut t = Self::zero();
                for x in it { t += x; }
                t
            }
        }
        impl<'a, const D: #dim> std::iter::Sum<&'a #q<f64, D>> for #q<f64, D> {
            fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
                let mut t = Self::zero();
                for x in it { t += *x; }
                t
            }
        }
        impl std::ops::Add<f64> for #q<f64, { #dim::none() }> {
            type Output = Self;
            fn add(self, o: f64) -> Self { #q(self.0 + o) }
        }
        impl std::ops::Sub<f64> for #q<f64, { #dim::none() }> {
            type Output = Self;
            fn sub(self, o: f64) -> Self { #q(self.0 - o) }
        }
        impl std::ops::AddAssign<f64> for #q<f64, { #dim::none() }> {
            fn add_assign(&mut self, o: f64) { self.0 += o }
        }
        impl std::ops::SubAssign<f64> for #q<f64, { #dim::none() }> {
            fn sub_assign(&mut self, o: f64) { self.0 -= o }
        }
        impl std::ops::Add<#q<f64, { #dim::none() }>> for f64 {
            type Output = #q<f64, { #dim::none() }>;
            fn add(self, o: #q<f64, { #dim::none() }>) -> Self::Output { #q(self + o.0) }
        }
        impl std::ops::Sub<#q<f64, { #dim::none() }>> for f64 {
            type Output = #q<f64, { #dim::none() }>;
            fn sub(self, o: #q<f64, { #dim::none() }>) -> Self::Output { #q(self - o.0) }
        }

        impl<const D: #dim> #q<f64, D> {
            pub const fn zero() -> Self { #q(0.0) }
            pub fn abs(self) -> Self { #q(self.0.abs()) }
            pub fn min(self, o: impl Into<Self>) -> Self { #q(self.0.min(o.into().0)) }
            pub fn max(self, o: impl Into<Self>) -> Self { #q(self.0.max(o.into().0)) }
            pub fn clamp(self, a: impl Into<Self>, b: impl Into<Self>) -> Self { #q(self.0.clamp(a.into().0, b.into().0)) }
            pub fn is_nan(self) -> bool { self.0.is_nan() }
            pub fn is_finite(self) -> bool { self.0.is_finite() }
            pub fn is_positive(self) -> bool { self.0 > 0.0 }
            pub fn is_negative(self) -> bool { self.0 < 0.0 }
            pub fn squared(self) -> #q<f64, { D.dimension_powi(2) }>
            where #q<f64, { D.dimension_powi(2) }>: {
                #q(self.0.powi(2))
            }
            pub fn cubed(self) -> #q<f64, { D.dimension_powi(3) }>
            where #q<f64, { D.dimension_powi(3) }>: {
                #q(self.0.powi(3))
            }
            pub fn powi<const I: i32>(self) -> #q<f64, { D.dimension_powi(I) }>
            where #q<f64, { D.dimension_powi(I) }>: {
                #q(self.0.powi(I))
            }
            pub fn sqrt(self) -> #q<f64, { D.dimension_sqrt() }>
            where #q<f64, { D.dimension_sqrt() }>: {
                #q(self.0.sqrt())
            }
            pub fn cbrt(self) -> #q<f64, { D.dimension_cbrt() }>
            where #q<f64, { D.dimension_cbrt() }>: {
                #q(self.0.cbrt())
            }
        }

        macro_rules! impl_mul_div {
            ($l: ty, $r: ty, $o: ty) => {
                impl<const DL: #dim, const DR: #dim> std::ops::Mul<#q<$r, DR>> for #q<$l, DL>
                where #q<$o, { DL.dimension_mul(DR) }>: {
                    type Output = #q<$o, { DL.dimension_mul(DR) }>;
                    fn mul(self, o: #q<$r, DR>) -> Self::Output { #q(self.0 * o.0) }
                }
            };
            (div $l: ty, $r: ty, $o: ty) => {
                impl<const DL: #dim, const DR: #dim> std::ops::Div<#q<$r, DR>> for #q<$l, DL>
                where #q<$o, { DL.dimension_div(DR) }>: {
                    type Output = #q<$o, { DL.dimension_div(DR) }>;
                    fn div(self, o: #q<$r, DR>) -> Self::Output { #q(self.0 / o.0) }
                }
            };
        }
        impl_mul_div!(f64, f64, f64);
        impl_mul_div!(div f64, f64, f64);
        impl_mul_div!(diman::__reexports::glam::DVec2, f64, diman::__reexports::glam::DVec2);
        impl_mul_div!(diman::__reexports::glam::DVec3, f64, diman::__reexports::glam::DVec3);
        impl_mul_div!(f64, diman::__reexports::glam::DVec2, diman::__reexports::glam::DVec2);
        impl_mul_div!(f64, diman::__reexports::glam::DVec3, diman::__reexports::glam::DVec3);
        impl_mul_div!(div diman::__reexports::glam::DVec2, f64, diman::__reexports::glam::DVec2);
        impl_mul_div!(div diman::__reexports::glam::DVec3, f64, diman::__reexports::glam::DVec3);

        impl<S: std::ops::Mul<f64, Output = S>, const D: #dim> std::ops::Mul<f64> for #q<S, D> {
            type Output = Self;
            fn mul(self, o: f64) -> Self { #q(self.0 * o) }
        }
        impl<S: std::ops::Div<f64, Output = S>, const D: #dim> std::ops::Div<f64> for #q<S, D> {
            type Output = Self;
            fn div(self, o: f64) -> Self { #q(self.0 / o) }
        }
        impl<S: std::ops::MulAssign<f64>, const D: #dim> std::ops::MulAssign<f64> for #q<S, D> {
            fn mul_assign(&mut self, o: f64) { self.0 *= o }
        }
        impl<S: std::ops::DivAssign<f64>, const D: #dim> std::ops::DivAssign<f64> for #q<S, D> {
            fn div_assign(&mut self, o: f64) { self.0 /= o }
        }
        impl<S: std::ops::MulAssign<f64>, const D: #dim> std::ops::MulAssign<#q<f64, { #dim::none() }>> for #q<S, D> {
            fn mul_assign(&mut self, o: #q<f64, { #dim::none() }>) { self.0 *= o.0 }
        }
        impl<S: std::ops::DivAssign<f64>, const D: #dim> std::ops::DivAssign<#q<f64, { #dim::none() }>> for #q<S, D> {
            fn div_assign(&mut self, o: #q<f64, { #dim::none() }>) { self.0 /= o.0 }
        }
        impl<const D: #dim> std::ops::Mul<#q<f64, D>> for f64 {
            type Output = #q<f64, D>;
            fn mul(self, o: #q<f64, D>) -> #q<f64, D> { #q(self * o.0) }
        }
        impl<const D: #dim> std::ops::Mul<#q<diman::__reexports::glam::DVec2, D>> for f64 {
            type Output = #q<diman::__reexports::glam::DVec2, D>;
            fn mul(self, o: #q<diman::__reexports::glam::DVec2, D>) -> Self::Output { #q(self * o.0) }
        }
        impl<const D: #dim> std::ops::Mul<#q<diman::__reexports::glam::DVec3, D>> for f64 {
            type Output = #q<diman::__reexports::glam::DVec3, D>;
            fn mul(self, o: #q<diman::__reexports::glam::DVec3, D>) -> Self::Output { #q(self * o.0) }
        }
        impl<const D: #dim> std::ops::Div<#q<f64, D>> for f64
        where #q<f64, { D.dimension_inv() }>: {
            type Output = #q<f64, { D.dimension_inv() }>;
            fn div(self, o: #q<f64, D>) -> Self::Output { #q(self / o.0) }
        }
        impl<const D: #dim> std::ops::Mul<#q<f64, D>> for diman::__reexports::glam::DVec2 {
            type Output = #q<diman::__reexports::glam::DVec2, D>;
            fn mul(self, o: #q<f64, D>) -> Self::Output { #q(self * o.0) }
        }
        impl<const D: #dim> std::ops::Mul<#q<f64, D>> for diman::__reexports::glam::DVec3 {
            type Output = #q<diman::__reexports::glam::DVec3, D>;
            fn mul(self, o: #q<f64, D>) -> Self::Output { #q(self * o.0) }
        }

        impl #q<f64, { #dim::none() }> {
            pub fn ceil(self) -> Self { #q(self.0.ceil()) }
            pub fn exp(self) -> Self { #q(self.0.exp()) }
            pub fn ln(self) -> Self { #q(self.0.ln()) }
            pub fn log10(self) -> Self { #q(self.0.log10()) }
            pub fn log2(self) -> Self { #q(self.0.log2()) }
        }
    };
    for (v, n, comps) in [("DVec2", 2usize, vec!["x", "y"]), ("DVec3", 3, vec!["x", "y", "z"])] {
        let v = Ident::new(v, proc_macro2::Span::call_site());
        let c: Vec<_> = comps.iter().map(|c| Ident::new(c, proc_macro2::Span::call_site())).collect();
        let idx: Vec<usize> = (0..n).collect();
        let news: Vec<T2> = (0..n)
            .map(|i| {
                let f = Ident::new(&format!("new_{}", comps[i]), proc_macro2::Span::call_site());
                let args = (0..n).map(|j| if i == j { quote! { v.0 } } else { quote! { 0.0 } });
                quote! { pub fn #f(v: #q<f64, D>) -> Self { #q(diman::__reexports::glam::#v::new(#(#args),*)) } }
            })
            .collect();
        out.extend(quote! {
            impl<const D: #dim> #q<diman::__reexports::glam::#v, D> {
                pub fn new(#(#c: #q<f64, D>),*) -> Self { #q(diman::__reexports::glam::#v::new(#(#c.0),*)) }
                pub fn zero() -> Self { #q(diman::__reexports::glam::#v::ZERO) }
                #(#news)*
                #(pub fn #c(&self) -> #q<f64, D> { #q(self.0.#c) })*
                pub fn length(&self) -> #q<f64, D> { #q(self.0.length()) }
                pub fn distance(&self, o: &Self) -> #q<f64, D> { #q((self.0 - o.0).length()) }
                pub fn distance_squared(&self, o: &Self) -> #q<f64, { D.dimension_powi(2) }>
                where #q<f64, { D.dimension_powi(2) }>: { #q((self.0 - o.0).length_squared()) }
                pub fn normalize(&self) -> #q<diman::__reexports::glam::#v, { #dim::none() }> { #q(self.0.normalize()) }
                pub fn abs(self) -> Self { #q(self.0.abs()) }
                pub fn min(self, o: Self) -> Self { #q(self.0.min(o.0)) }
                pub fn max(self, o: Self) -> Self { #q(self.0.max(o.0)) }
                pub fn max_element(self) -> #q<f64, D> { #q(self.0.max_element()) }
                pub fn min_element(self) -> #q<f64, D> { #q(self.0.min_element()) }
                pub fn dot<const DR: #dim>(self, o: #q<diman::__reexports::glam::#v, DR>) -> #q<f64, { D.dimension_mul(DR) }>
                where #q<f64, { D.dimension_mul(DR) }>: { #q(self.0.dot(o.0)) }
            }
            impl<const D: #dim> std::iter::Sum for #q<diman::__reexports::glam::#v, D> {
                fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
                    let mut t = Self::zero();
                    for x in it { t += x; }
                    t
                }
            }
            unsafe impl<const D: #dim> diman::__reexports::mpi::traits::Equivalence for #q<diman::__reexports::glam::#v, D> {
                type Out = diman::__reexports::mpi::datatype::DatatypeRef<'static>;
                fn equivalent_datatype() -> Self::Out {
                    use diman::__reexports::mpi::datatype::{AsDatatype as _, UserDatatype};
                    static TYPE: std::sync::OnceLock<UserDatatype> = std::sync::OnceLock::new();
                    TYPE.get_or_init(|| UserDatatype::contiguous(#n as i32, &<f64 as diman::__reexports::mpi::traits::Equivalence>::equivalent_datatype())).as_ref()
                }
            }
            unsafe impl<const D: #dim> diman::__reexports::hdf5::H5Type for #q<diman::__reexports::glam::#v, D> {
                fn type_descriptor() -> diman::__reexports::hdf5::TypeDescriptor {
                    diman::__reexports::hdf5::TypeDescriptor::array(#n)
                }
            }
            impl<'de, const D: #dim> diman::__reexports::serde::Deserialize<'de> for #q<diman::__reexports::glam::#v, D> {
                fn deserialize<De: diman::__reexports::serde::Deserializer<'de>>(de: De) -> Result<Self, De::Error> {
                    use diman::__reexports::serde::de::Error;
                    let s: String = diman::__reexports::serde::Deserialize::deserialize(de)?;
                    let (v, unit) = diman::split_text(&s).ok_or_else(|| De::Error::custom(format!("not a vector quantity: {s}")))?;
                    let (d, f) = unit_from_text(&unit).ok_or_else(|| De::Error::custom(format!("unknown unit: {unit}")))?;
                    if d != D { return Err(De::Error::custom(format!("mismatch in dimensions: {s}"))); }
                    if v.len() != #n { return Err(De::Error::custom(format!("wrong number of components: {s}"))); }
                    Ok(#q(diman::__reexports::glam::#v::new(#(v[#idx] * f),*)))
                }
            }
            impl<const D: #dim> diman::__reexports::serde::Serialize for #q<diman::__reexports::glam::#v, D> {
                fn serialize<Se: diman::__reexports::serde::Serializer>(&self, se: Se) -> Result<Se::Ok, Se::Error> {
                    let unit = UNITS.iter().find(|(d, _, f)| *d == D && *f == 1.0).map(|(_, n, _)| *n).unwrap_or("");
                    let parts: Vec<String> = vec![#(self.0.#c.to_string()),*];
                    se.serialize_str(&format!("({}) {}", parts.join(" "), unit))
                }
            }
        });
    }
    out.extend(quote! {
        unsafe impl<const D: #dim> diman::__reexports::mpi::traits::Equivalence for #q<f64, D> {
            type Out = <f64 as diman::__reexports::mpi::traits::Equivalence>::Out;
            fn equivalent_datatype() -> Self::Out {
                <f64 as diman::__reexports::mpi::traits::Equivalence>::equivalent_datatype()
            }
        }
        unsafe impl<const D: #dim> diman::__reexports::hdf5::H5Type for #q<f64, D> {
            fn type_descriptor() -> diman::__reexports::hdf5::TypeDescriptor {
                <f64 as diman::__reexports::hdf5::H5Type>::type_descriptor()
            }
        }
        struct QuantityVisitor<const D: #dim>;
        impl<'de, const D: #dim> diman::__reexports::serde::de::Visitor<'de> for QuantityVisitor<D> {
            type Value = #q<f64, D>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a quantity with unit")
            }
            fn visit_f64<E: diman::__reexports::serde::de::Error>(self, v: f64) -> Result<Self::Value, E> {
                if D == #dim::none() { Ok(#q(v)) } else { Err(E::custom("number without unit")) }
            }
            fn visit_i64<E: diman::__reexports::serde::de::Error>(self, v: i64) -> Result<Self::Value, E> {
                self.visit_f64(v as f64)
            }
            fn visit_u64<E: diman::__reexports::serde::de::Error>(self, v: u64) -> Result<Self::Value, E> {
                self.visit_f64(v as f64)
            }
            fn visit_str<E: diman::__reexports::serde::de::Error>(self, s: &str) -> Result<Self::Value, E> {
                let (v, unit) = diman::split_text(s).ok_or_else(|| E::custom(format!("not a quantity: {s}")))?;
                let (d, f) = unit_from_text(&unit).ok_or_else(|| E::custom(format!("unknown unit: {unit}")))?;
                if d != D || v.len() != 1 { return Err(E::custom(format!("mismatch in dimensions: {s}"))); }
                Ok(#q(v[0] * f))
            }
        }
        impl<'de, const D: #dim> diman::__reexports::serde::Deserialize<'de> for #q<f64, D> {
            fn deserialize<De: diman::__reexports::serde::Deserializer<'de>>(de: De) -> Result<Self, De::Error> {
                de.deserialize_any(QuantityVisitor::<D>)
            }
        }
        impl<const D: #dim> diman::__reexports::serde::Serialize for #q<f64, D> {
            fn serialize<Se: diman::__reexports::serde::Serializer>(&self, se: Se) -> Result<Se::Ok, Se::Error> {
                if D == #dim::none() { return se.serialize_f64(self.0); }
                let unit = UNITS.iter().find(|(d, n, f)| *d == D && *f == 1.0 && !n.is_empty()).map(|(_, n, _)| *n).unwrap_or("");
                se.serialize_str(&format!("{} {}", self.0, unit))
            }
        }
    });
    out.into()
}
