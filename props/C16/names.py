"""names of the node sets, from the declarations of the base classes (for the driver and the harness)"""
import itertools
F2 = ["Bottom", "Top", "Left", "Right"]
AX = {"Left": (0, 0), "Right": (0, 1), "Bottom": (1, 0), "Top": (1, 1), "Front": (2, 0), "Back": (2, 1)}
E2 = [s + x for s in F2 for x in ("Edge", "OpenEdge")]
C2 = [a + b + "Corner" for a in F2 for b in F2 if AX[a][0] != AX[b][0]]
F3 = ["Front", "Back", "Left", "Right", "Bottom", "Top"]
S3 = F3 + [f + "Face" for f in F3]
L3 = [a + b + x for a in F3 for b in F3 if AX[a][0] != AX[b][0] for x in ("Edge", "OpenEdge")]
C3 = [a + b + c + "Corner" for a in F3 for b in F3 for c in F3 if len({AX[a][0], AX[b][0], AX[c][0]}) == 3]


def parts(name):
    """(fixed {axis: side}, open)"""
    fix, rest = {}, name
    while True:
        for f in AX:
            if rest.startswith(f):
                fix[AX[f][0]] = AX[f][1]
                rest = rest[len(f):]
                break
        else:
            break
    return fix, rest in ("OpenEdge", "Face")
