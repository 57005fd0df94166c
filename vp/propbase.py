"""Registry the property list fills."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


ENGINE = "abstract interpretation of the clang syntax tree into hash-consed value-numbering terms (gated joins, helpers inlined); "
TRUST = " Trusts clang 18's parse of the current source, the std:: models in vp/interp.py and the oracle tables in the rule module."

