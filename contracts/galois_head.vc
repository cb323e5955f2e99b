#raw
use std::ops::*;
use std::cmp::Ordering;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
#end
