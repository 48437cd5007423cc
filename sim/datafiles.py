"""Reads generated data files line by line, the way they were written."""
import numpy as np

from .base import Violation, check


class Solution:
    """What one solution contributes to the two files (lines with their ends)."""

    def __init__(self, key, block, row):
        self.key, self.block, self.row = key, block, row


def split_reference(data, bench, key):
    """Blocks of an undisturbed run: (data header, benchmark header, solutions)."""
    lines = data.splitlines(keepends=True)
    rows = bench.splitlines(keepends=True)
    check(len(lines) > 2 and len(rows) > 2, "no-data", "an undisturbed run produces no data files")
    blocks, last = [], None
    for line in lines[2:]:
        time = float(line.split(b",", 1)[0])
        if last is None or time < last or time == 0.0:
            blocks.append([])
        blocks[-1].append(line)
        last = time
    check(len(blocks) == len(rows) - 2, "reference-count", lambda:
          f"an undisturbed run writes {len(blocks)} solutions and {len(rows) - 2} benchmarks")
    return lines[:2], rows[:2], [Solution((key, j), block, row)
                                 for j, (block, row) in enumerate(zip(blocks, rows[2:]))]


def _header(content, header, what):
    """Lines after the header; None if the header is torn or missing."""
    head = b"".join(header)
    if content.startswith(head):
        return content[len(head):].splitlines(keepends=True)
    if head.startswith(content):
        return None
    raise Violation("header", f"{what} does not start with its header")


def parse_data(content, header, solutions):
    """[(key, complete)] in the order of the file.  A torn entry which may belong
    to several SOLUTIONS is the first one's."""
    lines = _header(content, header, "data.csv")
    if lines is None:
        return []
    items, at = [], 0
    while at < len(lines):
        line = lines[at]
        best = None
        for s in solutions:
            n = 0
            while n < len(s.block) and at + n < len(lines) and lines[at + n] == s.block[n]:
                n += 1
            torn = 0
            if n < len(s.block) and at + n < len(lines):
                rest = lines[at + n].rstrip(b"\r\n")
                if rest and s.block[n].startswith(rest) or lines[at + n] in (b"\n", b"\r\n"):
                    torn = 1
            if n + torn and (best is None or (n, torn) > (best[1], best[2])):
                best = (s, n, torn)
        if best is None:
            raise Violation("garbled-data", f"line {at + 3} of data.csv belongs to no solution: "
                            f"{line[:80]!r}")
        s, n, torn = best
        items.append((s.key, n == len(s.block)))
        at += n + torn
    return items


def parse_bench(content, header, solutions):
    rows = _header(content, header, "benchmark.csv")
    items = []
    for k, row in enumerate(rows or []):
        key = next((s.key for s in solutions if s.row == row), None)
        if key is not None:
            items.append((key, True))
            continue
        text = row.rstrip(b"\r\n")
        key = next((s.key for s in solutions if s.row.startswith(text)), None)
        if key is None:
            raise Violation("garbled-benchmark", f"row {k} of benchmark.csv belongs to no solution: "
                            f"{row[:80]!r}")
        items.append((key, False))
    return items


def common(a, b):
    """Longest common subsequence."""
    table = [[()] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) - 1, -1, -1):
        for j in range(len(b) - 1, -1, -1):
            if a[i] == b[j]:
                table[i][j] = (a[i],) + table[i + 1][j + 1]
            else:
                table[i][j] = max(table[i + 1][j], table[i][j + 1], key=len)
    return list(table[0][0])


def is_subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)
