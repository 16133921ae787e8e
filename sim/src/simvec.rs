//! Vector types implementing the library's public vector traits.  Every operation on them is a
//! yield point of the simulator and a place where an injected panic can happen; the arithmetic is
//! that of glam's DVec2/Vec2/DVec3/Vec3.
use crate::sched::vec_op;
use std::ops::*;
use vector_traits::approx::AbsDiffEq;
use vector_traits::num_traits::Float;
use vector_traits::{Approx, GenericScalar, GenericVector2, GenericVector3, HasXY, HasXYZ};

pub trait Sc: GenericScalar + 'static {
    fn of(v: f64) -> Self;
    fn bits(self) -> u64;
    fn f(self) -> f64;
}
impl Sc for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn bits(self) -> u64 {
        f64::to_bits(self)
    }
    fn f(self) -> f64 {
        self
    }
}
impl Sc for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn bits(self) -> u64 {
        f32::to_bits(self) as u64
    }
    fn f(self) -> f64 {
        self as f64
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SimVec2<S> {
    pub x: S,
    pub y: S,
}
#[derive(Clone, Copy, Debug)]
pub struct SimVec3<S> {
    pub x: S,
    pub y: S,
    pub z: S,
}

macro_rules! binop {
    ($t:ident, $tr:ident, $f:ident, $op:tt, $($c:ident),*) => {
        impl<S: Sc> $tr for $t<S> {
            type Output = Self;
            #[inline]
            fn $f(self, o: Self) -> Self {
                vec_op();
                $t { $($c: self.$c $op o.$c),* }
            }
        }
    };
}
macro_rules! scop {
    ($t:ident, $tr:ident, $f:ident, $op:tt, $($c:ident),*) => {
        impl<S: Sc> $tr<S> for $t<S> {
            type Output = Self;
            #[inline]
            fn $f(self, o: S) -> Self {
                vec_op();
                $t { $($c: self.$c $op o),* }
            }
        }
    };
}
macro_rules! common {
    ($t:ident, $($c:ident),*) => {
        binop!($t, Add, add, +, $($c),*);
        binop!($t, Sub, sub, -, $($c),*);
        scop!($t, Mul, mul, *, $($c),*);
        scop!($t, Div, div, /, $($c),*);
        impl<S: Sc> Neg for $t<S> {
            type Output = Self;
            #[inline]
            fn neg(self) -> Self {
                vec_op();
                $t { $($c: -self.$c),* }
            }
        }
        impl<S: Sc> AddAssign for $t<S> {
            #[inline]
            fn add_assign(&mut self, o: Self) {
                vec_op();
                $(self.$c += o.$c;)*
            }
        }
        impl<S: Sc> PartialEq for $t<S> {
            #[inline]
            fn eq(&self, o: &Self) -> bool {
                vec_op();
                $(self.$c == o.$c)&&*
            }
        }
        impl<S: Sc> Approx for $t<S> {
            #[inline]
            fn is_ulps_eq(self, o: Self, e: <S as AbsDiffEq>::Epsilon, u: u32) -> bool {
                vec_op();
                $(self.$c.ulps_eq(&o.$c, e, u))&&*
            }
            #[inline]
            fn is_abs_diff_eq(self, o: Self, e: <S as AbsDiffEq>::Epsilon) -> bool {
                vec_op();
                $(self.$c.abs_diff_eq(&o.$c, e))&&*
            }
        }
        impl<S: Sc> HasXY for $t<S> {
            type Scalar = S;
            #[inline]
            #[allow(clippy::needless_update)]
            fn new_2d(x: S, y: S) -> Self {
                vec_op();
                let mut v = $t { $($c: S::ZERO),* };
                v.x = x;
                v.y = y;
                v
            }
            #[inline]
            fn x(self) -> S {
                vec_op();
                self.x
            }
            #[inline]
            fn x_mut(&mut self) -> &mut S {
                vec_op();
                &mut self.x
            }
            #[inline]
            fn set_x(&mut self, v: S) {
                vec_op();
                self.x = v
            }
            #[inline]
            fn y(self) -> S {
                vec_op();
                self.y
            }
            #[inline]
            fn y_mut(&mut self) -> &mut S {
                vec_op();
                &mut self.y
            }
            #[inline]
            fn set_y(&mut self, v: S) {
                vec_op();
                self.y = v
            }
        }
    };
}
common!(SimVec2, x, y);
common!(SimVec3, x, y, z);

impl<S: Sc> Index<usize> for SimVec2<S> {
    type Output = S;
    fn index(&self, i: usize) -> &S {
        vec_op();
        match i {
            0 => &self.x,
            1 => &self.y,
            _ => panic!("index out of bounds"),
        }
    }
}
impl<S: Sc> Index<usize> for SimVec3<S> {
    type Output = S;
    fn index(&self, i: usize) -> &S {
        vec_op();
        match i {
            0 => &self.x,
            1 => &self.y,
            2 => &self.z,
            _ => panic!("index out of bounds"),
        }
    }
}
impl<S: Sc> HasXYZ for SimVec3<S> {
    #[inline]
    fn new_3d(x: S, y: S, z: S) -> Self {
        vec_op();
        SimVec3 { x, y, z }
    }
    #[inline]
    fn z(self) -> S {
        vec_op();
        self.z
    }
    #[inline]
    fn z_mut(&mut self) -> &mut S {
        vec_op();
        &mut self.z
    }
    #[inline]
    fn set_z(&mut self, v: S) {
        vec_op();
        self.z = v
    }
}

impl<S: Sc> GenericVector2 for SimVec2<S> {
    type Vector3 = SimVec3<S>;
    fn to_3d(self, z: S) -> SimVec3<S> {
        vec_op();
        SimVec3 { x: self.x, y: self.y, z }
    }
    fn magnitude(self) -> S {
        vec_op();
        Float::sqrt(self.x * self.x + self.y * self.y)
    }
    fn magnitude_sq(self) -> S {
        vec_op();
        self.x * self.x + self.y * self.y
    }
    fn dot(self, o: Self) -> S {
        vec_op();
        self.x * o.x + self.y * o.y
    }
    fn perp_dot(self, o: Self) -> S {
        vec_op();
        self.x * o.y - self.y * o.x
    }
    fn distance(self, o: Self) -> S {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> S {
        (self - o).magnitude_sq()
    }
    fn normalize(self) -> Self {
        self * (S::ONE / self.magnitude())
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        if l == S::ZERO {
            None
        } else {
            Some(self / l)
        }
    }
}
impl<S: Sc> GenericVector3 for SimVec3<S> {
    type Vector2 = SimVec2<S>;
    fn to_2d(&self) -> SimVec2<S> {
        vec_op();
        SimVec2 { x: self.x, y: self.y }
    }
    fn magnitude(self) -> S {
        Float::sqrt(self.magnitude_sq())
    }
    fn magnitude_sq(self) -> S {
        vec_op();
        self.x * self.x + self.y * self.y + self.z * self.z
    }
    fn dot(self, o: Self) -> S {
        vec_op();
        self.x * o.x + self.y * o.y + self.z * o.z
    }
    fn cross(self, o: Self) -> Self {
        vec_op();
        SimVec3 {
            x: self.y * o.z - o.y * self.z,
            y: self.z * o.x - o.z * self.x,
            z: self.x * o.y - o.x * self.y,
        }
    }
    fn normalize(self) -> Self {
        self * (S::ONE / self.magnitude())
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        if l == S::ZERO {
            None
        } else {
            Some(self / l)
        }
    }
    fn distance(self, o: Self) -> S {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> S {
        (self - o).magnitude_sq()
    }
}
