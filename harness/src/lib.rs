//! Interpreter for the instruction set of spec/Redox.tla on the real library.
//! It decides nothing: it executes calls and writes down what they returned.
pub mod json;
pub mod vm;
