//! Stand-in: the plugins feature is off.
