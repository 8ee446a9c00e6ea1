"""Sidecar contracts on the functions of /repo: every task states the pre- and postcondition of one real function."""
