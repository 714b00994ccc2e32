//! Not used beyond its name.
