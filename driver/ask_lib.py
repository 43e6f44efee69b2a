"""Recorded answers to questions for signatures: the events of AskTrace.tla."""
import hashlib
import re
import sys

import stub_lib
from paradigm import base

ADDRESS = re.compile(r' at 0x[0-9a-fA-F]+')


def legal_view(alternatives):
    """The parameters as data for Signature.tla."""
    return [[{'n': p['n'], 'k': p['k'], 'o': p['o'],
              'd': '-' if p['d'] == '-' else 'v', 'a': ''} for p in alt['ps']]
            for alt in alternatives]


TOKEN = re.compile(r'[\w.]+|\S')


def unordered(value):
    """Terms with arguments of unions in a fixed order: the ones of equal unions are
    kept by the interpreter in the order in which one of them was spelled first."""
    if isinstance(value, dict):
        value = {key: unordered(x) for key, x in value.items()}
        if value.get('o') in ('union', 'literal'):
            value['a'] = sorted(value['a'], key=repr)
        return value
    return [unordered(x) for x in value] if isinstance(value, list) else value


def digest(signature, alternatives):
    try:
        text = ' '.join(sorted(TOKEN.findall(ADDRESS.sub('', repr(signature)))))
    except Exception as error:
        text = 'repr: ' + type(error).__name__
    terms = ADDRESS.sub('', repr(unordered(alternatives)))
    return hashlib.sha1((terms + text).encode()
                        ).hexdigest()[:16]


def question(value):
    """(outcome, signature)"""
    try:
        return 'ok', base.signature_from_callable(value)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as error:
        return 'error:' + type(error).__name__, None


def ask(x, value, who='', must='F', twice=True, keep=False):
    out, signature = question(value)
    event = {'op': 'ask', 'x': x, 'who': who, 'out': out, 'alts': [], 'dg': '',
             'eq': 'T', 'cls': '', 'must': must}
    if out != 'ok':
        return event
    try:
        alternatives = stub_lib.signature(signature)
        event['alts'] = legal_view(alternatives)
        event['cls'] = ('plain' if isinstance(signature, base.PlainSignature)
                        else 'overloaded')
        event['dg'] = digest(signature, alternatives)
        if keep:
            event['full'] = ADDRESS.sub('', str(signature))[:600]
    except Exception as error:
        event['out'] = 'error:malformed ' + type(error).__name__
        return event
    if twice:
        out, again = question(value)
        try:
            event['eq'] = 'T' if out == 'ok' and again == signature else 'F'
        except Exception as error:
            # defaults of users may refuse to be compared
            event['eq'] = 'T' if isinstance(error, Hostile) else 'F'
    return event


class Hostile(Exception):
    pass


def part(x, value):
    out, signature = question(value)
    return {'op': 'part', 'x': x, 'out': out,
            'dg': '' if out != 'ok' else digest(signature,
                                                stub_lib.signature(signature))}


if __name__ == '__main__':
    sys.exit(0)
