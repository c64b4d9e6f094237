#![allow(unused_variables)]
