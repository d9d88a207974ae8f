"""From driver responses to the lines the Trace*.tla modules read."""
import re


def lr_error(l):
    """Position and expected tokens of an LR error message."""
    m = re.search(r"Error @ line (\d+) col (\d+) tok ", l["err"])
    l["eline"], l["ecol"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = l["err"].rfind(", expected one of: ")
    l["exp"] = sorted("$" if t == "EOF" else t for t in l["err"][m + 19:].split()) if m >= 0 else []
    return l
