"""Shared machinery of the ETHFALCON runtime monitors."""
