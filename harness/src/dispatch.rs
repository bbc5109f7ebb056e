//! From a property's name to its type.
macro_rules! dispatch {
    ($id:expr, $f:ident, $($arg:expr),*) => {{
        use props::*;
        match $id {
            "C01" => runner::$f::<cal::C01>($($arg),*), "C02" => runner::$f::<cal::C02>($($arg),*), "C03" => runner::$f::<cal::C03>($($arg),*),
            "C04" => runner::$f::<cal::C04>($($arg),*), "C05" => runner::$f::<cal::C05>($($arg),*), "C06" => runner::$f::<time::C06>($($arg),*),
            "C07" => runner::$f::<time::C07>($($arg),*), "C08" => runner::$f::<maths::C08>($($arg),*), "C09" => runner::$f::<maths::C09>($($arg),*),
            "C10" => runner::$f::<maths::C10>($($arg),*), "C11" => runner::$f::<earth::C11>($($arg),*), "C12" => runner::$f::<earth::C12>($($arg),*),
            "C13" => runner::$f::<earth::C13>($($arg),*), "C14" => runner::$f::<frames::C14>($($arg),*), "C15" => runner::$f::<frames::C15>($($arg),*),
            "C16" => runner::$f::<frames::C16>($($arg),*), "C17" => runner::$f::<frames::C17>($($arg),*), "C18" => runner::$f::<frames::C18>($($arg),*),
            "C19" => runner::$f::<frames::C19>($($arg),*), "C20" => runner::$f::<earth::C20>($($arg),*), "C21" => runner::$f::<earth::C21>($($arg),*),
            "C22" => runner::$f::<geo::C22>($($arg),*), "C23" => runner::$f::<geo::C23>($($arg),*), "C24" => runner::$f::<geo::C24>($($arg),*),
            "C25" => runner::$f::<geo::C25>($($arg),*), "C26" => runner::$f::<sun::C26>($($arg),*), "C27" => runner::$f::<sun::C27>($($arg),*),
            "C28" => runner::$f::<sys::C28>($($arg),*), "C29" => runner::$f::<sys::C29>($($arg),*), "C30" => runner::$f::<sys::C30>($($arg),*),
            other => {
                eprintln!("error: no check for property {other:?}");
                2
            }
        }
    }};
}
