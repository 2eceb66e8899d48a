"""Builds the exporter plugin (checks rebuild it when it is missing)."""
import prove
print(prove.plugin())
