use std::{result, marker::PhantomData};
