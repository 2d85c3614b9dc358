"""Stand-in for the external acetimepy package (not installed, no network).

The buffer-size estimator of the code under test drives an external
ZoneProcessor.  This stand-in is *instrumentation*: its answers are a pure
function of every field of the zone data it is handed and of the year, so the
figure that ends up in the generated files reveals exactly which data and which
years the estimator looked at.
"""
