//! Only here so that cargo builds the Python extension of /repo (cdylib, feature "python").
