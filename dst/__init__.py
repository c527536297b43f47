"""Deterministic simulation of ESAT: scheduler, clock, pools, queues, files, faults."""
