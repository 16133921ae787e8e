use crate::disk::{FileImg, Plan};
use crate::lazy::{Act, Task};
use crate::ops::Op;
use crate::sched::Sched;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    pub idx: u64,
    pub sched: Sched,
    pub hash_seed: u64,
    pub fill: u32,
    pub work: Work,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pool {
    /// the caller is not a pool thread, the pool is the global one
    Global,
    /// inside ThreadPool::install of a pool of its own
    Install,
    /// several callers that are not pool threads share the global pool
    Callers(u32),
    /// several tasks on the same pool, spawned in a scope
    Scope(u32),
    /// nested joins, each leaf calls
    Join(u32),
    /// a parallel iterator whose items call
    ParIter(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hull {
    /// vector type: 0 SimVec2<f64>, 1 SimVec2<f32>, 2 DVec2, 3 Vec2, 4 cgmath Vector2<f64>
    pub vt: u8,
    pub pts: Vec<[f64; 2]>,
    /// None: the trait method on the whole vector
    pub sel: Option<Vec<usize>>,
    pub chunk: usize,
    /// integer coordinates, exact reference; otherwise only the defining properties are checked
    pub exact: bool,
    #[serde(default)]
    pub place: Place,
}

/// where the library sees the points: p -> (p + at) * 2^exp, without rounding
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Place {
    pub exp: i32,
    pub at: [f64; 2],
}

impl Place {
    fn there(&self, c: usize, v: f64) -> f64 {
        (v + self.at[c]) * 2f64.powi(self.exp)
    }
    pub fn to(&self, p: &[f64; 2]) -> [f64; 2] {
        [self.there(0, p[0]), self.there(1, p[1])]
    }
    pub fn back(&self, p: [f64; 2]) -> [f64; 2] {
        [p[0] / 2f64.powi(self.exp) - self.at[0], p[1] / 2f64.powi(self.exp) - self.at[1]]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Contain {
    pub vt: u8,
    /// strictly convex polygon
    pub a: Vec<[f64; 2]>,
    pub closed: bool,
    pub b: Vec<[f64; 2]>,
    #[serde(default)]
    pub place: Place,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Job {
    Hull(Hull),
    Contain(Contain),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// component, kind (0 NaN, 1 inf, 2 -inf)
    NonFinite { at: usize, comp: u8, kind: u8 },
}

/// a large argument; the data follows from these few numbers
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Big {
    pub k: String,
    pub s: u8,
    pub shape: u8,
    pub edges: u8,
    pub n: usize,
    /// parameter of the operation (chunk size, points to delete, options)
    pub m: usize,
    pub p: f64,
    pub seed: u64,
    /// 0 none, otherwise what some of the components are replaced with
    #[serde(default)]
    pub odd: u8,
}

pub type Seg = [[f64; 3]; 2];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Obj {
    /// 0 SimVec3<f64>, 1 SimVec3<f32>, 2 DVec3, 3 Vec3
    pub vt: u8,
    pub name: String,
    pub lines: Vec<Vec<Seg>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Work {
    /// C01, C02, C11: every caller runs one of the jobs
    Par { pool: Pool, threads: u32, jobs: Vec<Job> },
    /// C03
    NonFinite { pool: Pool, threads: u32, job: Hull, bad: Vec<Bad>, bad_selected: bool },
    /// C04: `at` per mille of the vector operations of a fault free run
    Panic { pool: Pool, threads: u32, job: Job, other: Vec<Job>, at: u32, bad_index: Option<(usize, usize)>, rounds: u32 },
    /// C05
    Conc { pool: Pool, threads: u32, callers: Vec<Vec<Op>>, panic_at: u32 },
    /// C12: every caller works through its list of actions on the shared tasks
    Lazy { pool: Pool, threads: u32, tasks: Vec<Task>, callers: Vec<Vec<Act>> },
    /// C13: the same kinds of calls over and over; what does each round leave behind?
    Leak {
        pool: Pool,
        threads: u32,
        rounds: u32,
        /// operations of every round, by kind (data is drawn from `seed` and the round)
        kinds: Vec<String>,
        /// tasks started in every round and dropped after some steps
        lazy: Vec<String>,
        seed: u64,
        max: usize,
        /// new data in every round, or the same two data sets in turn
        varied: bool,
        /// 0 none, 1 a vector operation panics, 2 bad input, 3 a file system call fails
        bad: u8,
    },
    /// C14: large arguments of awkward shapes on threads with little stack
    Scale { install: bool, threads: u32, stack_kib: u32, jobs: Vec<Big> },
    /// C06
    Env { ops: Vec<Op>, envs: Vec<(u64, u32)>, prefix: Vec<Op> },
    /// C07, C08, C09
    Save { obj: Obj, path: String, old: Option<String>, plan: Plan, others: Vec<FileImg>, retries: u32 },
    /// C10
    Saves {
        objs: Vec<Vec<Obj>>,
        plan: Plan,
        old: Vec<Option<String>>,
        #[serde(default)]
        paths: Vec<String>,
        scope: bool,
        threads: u32,
    },
}
