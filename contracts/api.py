"""Contract registry.

A contract is a Python function ``def name(c, <parameters of the target>)``
attached to one function of /repo.  It is evaluated on the ENTRY state of a
call and states, through ``c``:

    c.requires(cond)          precondition (caller's obligation)
    c.raises(Exc, cond)       cond  ==> the call raises Exc (and nothing else
                              is promised); not cond ==> it does not raise
    c.returns(value)          result == value  (postcondition)
    c.ensures(name, fn)       fn(result) holds on the exit state
    c.modifies(obj, attr)     frame: only these attributes of these objects
                              may change (default: nothing)

The same text is interpreted twice: symbolically by the deductive verifier
(/verif/ded, for all inputs) and natively by the run-time contract checker
(/verif/rac, to replay and to search for failing inputs).
"""

REGISTRY = {}


class Contract:
    def __init__(self, module, qualname, props, fn):
        self.module = module
        self.qualname = qualname
        self.props = props
        self.fn = fn

    @property
    def target(self):
        return f"{self.module}:{self.qualname}"


def contract(module, qualname, props):
    def deco(fn):
        REGISTRY[f"{module}:{qualname}"] = Contract(
            module, qualname, list(props), fn
        )
        return fn

    return deco


LEMMAS = []


def lemma(props):
    """A client program over the real functions; c.check states its assertions."""
    def deco(fn):
        LEMMAS.append((list(props), fn))
        return fn

    return deco
