//! Empty stand-in: only needed for dependency resolution (feature not enabled).
