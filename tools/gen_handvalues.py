"""Turns TLC's dump of HandTable.tla into spec/gen/handvalues.txt."""
import re, sys

def convert(text):
    rows = []
    for m in re.finditer(r'^<<"HV", <<(\d), <<([\d, ]+)>>, (\d+)>>>>', text, re.M):
        rows.append(("F" if m[1] == "1" else "R") + " " + m[2].replace(", ", "") + " " + m[3])
    rows.sort()
    return "\n".join(rows) + "\n"

if __name__ == "__main__":
    sys.stdout.write(convert(open(sys.argv[1]).read()))
