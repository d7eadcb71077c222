"""Structural checks."""
import checks_api, checks_eff, checks_yaml
import checks_sel, checks_gen, checks_share
