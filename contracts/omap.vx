macro_rules! omap { ($o:expr, $x:ident, $e:expr) => { match $o { Some($x) => Some($e), None => None } } }
macro_rules! oand { ($o:expr, $x:ident, $e:expr) => { match $o { Some($x) => $e, None => None } } }
macro_rules! orelse { ($o:expr, $e:expr) => { match $o { Some(x) => Some(x), None => $e } } }
macro_rules! omapor { ($o:expr, $d:expr, |$x:ident| $e:expr $(,)?) => { match $o { Some($x) => $e, None => $d } } }
macro_rules! unwrapor { ($o:expr, $d:expr) => { match $o { Some(x) => x, None => $d } } }
