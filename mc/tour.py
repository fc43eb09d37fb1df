"""The documents other properties' checks are about, for those that hold for every text

Those spaces go into depth for one kind of section each, with its rare forms. What has to
hold for every text is judged for their documents, too.
"""

import importlib

from .engine import FuncSpace

QUICK = {
    "c02": ["blocks", "block-core", "core-block", "repeated-2", "markers", "almost", "core-lines"],
    "c05": ["core-3", "long", "long-words"],
    "c06": ["atoms-2-widths", "core-3", "long"],
    "c09": ["content", "indented-chunks", "long"],
    "c10": ["2-columns-2-rows", "2-columns-3-rows", "containers", "malformed", "large"],
    "c11": ["trees", "deep-trees", "items", "items-3", "hundreds", "digits", "chains"],
    "c12": ["atx-contexts", "setext-contexts", "atx-lengths", "setext-lengths"],
    "c13": ["tabs", "not-breaks", "lengths", "underlines"],
    "c14": ["parts", "spacing-contexts", "not-definitions", "long"],
    "c15": ["leaves-2", "lazy", "nests"],
    "c16": ["deep-core", "repeated-2"],
    "c27": ["lines", "pairs"],
}


class _Found(BaseException):
    pass


class _Ignored:
    """A recorder for what the other check reports"""

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


def _document(module, space, case):
    """The first text the other check reformats, and its line length"""

    def found(text, w, r=None):
        raise _Found(text, w)

    original = module.call
    module.call = found
    try:
        space.run(case, _Ignored())
    except _Found as e:
        return list(e.args)
    finally:
        module.call = original
    return None


def _space(name, module, space, run, what):
    def judge(case, r):
        document = _document(module, space, case)
        if document is not None:
            run(document, r)

    return FuncSpace(
        f"{name}-{space.name}",
        space.cases,
        judge,
        f"the documents of the check of {name.upper()}: {space.rule.partition(';')[0]}; "
        f"nontrivial: {what}",
    )


def spaces(run, tier, what, wanted=QUICK):
    result = []
    for name, names in wanted.items():
        module = importlib.import_module(f"mc.props.{name}")
        for space in module.spaces(tier):
            if space.name in names or tier == "thorough" and name != "c02":
                result.append(_space(name, module, space, run, what))
    return result
