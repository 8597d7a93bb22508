"""The rules of all properties."""
from . import rules_reject, rules_c, rules_cosmos, rules_misc, rules_list

RULES = {}
RULES.update(rules_reject.RULES)
RULES.update(rules_c.RULES)
RULES.update(rules_cosmos.RULES)
RULES.update(rules_misc.RULES)
RULES.update(rules_list.RULES)

from . import rules_mix, rules_large


def _with_mix(f):
    def g(ctx):
        if not ctx.only or "rules" in ctx.only:
            f(ctx)
        if not ctx.only or "large" in ctx.only:
            rules_large.large(ctx)
        if not ctx.only or "mix" in ctx.only:
            rules_mix.mixed(ctx)
    return g


RULES = {k: _with_mix(f) for k, f in RULES.items()}

from .about import ENGINE, RULE, BOUNDS, ASSUME

ABOUT = {k: {"rule": ENGINE + RULE[k] + " Shapes: " + BOUNDS[k] + " And large bundles (300 members, 300 enumerators, 40 chained definitions, 40 chained modules, 70 messages, 24 levels of WITH COMPONENTS, long names that differ in the last letter only), and mixed bundles of random composition from the seed (see DESIGN.md).", "assume": ASSUME} for k in RULES}
