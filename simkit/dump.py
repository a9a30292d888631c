"""Canonical, JSON-able picture of everything a caller can observe of a result."""
import hashlib
import json


def info(w):
    return [w.surface, w.head_word_length, w.pos_id, w.normalized_form, w.dictionary_form_word_id, w.dictionary_form,
            w.reading_form, list(w.a_unit_split), list(w.b_unit_split), list(w.word_structure),
            list(w.synonym_group_ids)]


def morpheme(m):
    return [m.begin(), m.end(), m.surface(), list(m.part_of_speech()), m.part_of_speech_id(), m.dictionary_form(),
            m.normalized_form(), m.reading_form(), bool(m.is_oov()), m.word_id(), m.dictionary_id(),
            list(m.synonym_group_ids()), info(m.get_word_info())]


def mlist(ml, splits=True):
    from sudachipy.tokenizer import Tokenizer
    out = []
    for m in ml:
        d = morpheme(m)
        if splits:
            d.append([[morpheme(x) for x in m.split(mode)] for mode in
                      (Tokenizer.SplitMode.A, Tokenizer.SplitMode.B, Tokenizer.SplitMode.C)])
        out.append(d)
    tail = [len(ml), str(ml)]
    if len(out):
        tail.append(ml.get_internal_cost())
    return [out, tail]


def digest(x):
    return hashlib.sha256(json.dumps(x, ensure_ascii=True, sort_keys=True).encode()).hexdigest()[:24]


def exc(e):
    return ['exception', type(e).__name__]


def mode_of(name):
    from sudachipy.tokenizer import Tokenizer
    return {'A': Tokenizer.SplitMode.A, 'B': Tokenizer.SplitMode.B, 'C': Tokenizer.SplitMode.C, None: None}[name]


def tok(tokenizer, text, mode, logger=None):
    """tokenize and read everything; an exception is an outcome"""
    try:
        ml = tokenizer.tokenize(text, mode_of(mode), logger) if logger is not None else tokenizer.tokenize(text, mode_of(mode))
        return ['ok', mlist(ml)]
    except Exception as e:
        return exc(e)
