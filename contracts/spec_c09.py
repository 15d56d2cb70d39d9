"""Specification functions of C09 (read from the property, not from the code)."""
import re


def split(tag, how):
    # notation {ns}name or ns:name; the separator that counts is the last one leaving a non-empty name
    ret = re.search(how, tag)
    if ret:
        return ret.group(1), ret.group(2)
    return None, tag


def denote(namespaces, special, ns, src, dst):
    """('one', value) | ('none',) | ('many',): what the namespace ns in notation src is called in notation dst"""
    ms = [m for m in namespaces if m[src] == ns]
    if len(ms) > 1:
        return ('many',)
    if len(ms) == 1:
        return ('one', ms[0][dst])
    if src != 0 and dst != 0:
        for url, prefix in special:
            if (prefix if src == 1 else url) == ns:
                return ('one', prefix if dst == 1 else url)
    return ('none',)
