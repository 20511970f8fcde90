"""Verification framework for aimclub/SAMPO (contract-based deductive verification + labelled bounded replays)."""
