"""Proof registry."""
PROOFS = []      # (property id, label, [translation units], function)


def proof(props, label, tus):
    if isinstance(props, str):
        props = [props]

    def deco(f):
        PROOFS.append((props, label, tus, f))
        return f
    return deco
