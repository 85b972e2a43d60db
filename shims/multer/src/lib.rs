//! Stand-in: the multipart feature is off.
