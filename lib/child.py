#!/usr/bin/env python3
"""A command for --patch-back that follows a script: r (read some input), w (write the next part of the text), c (close the input), s (pause);
at the end it writes what is left of the text and exits.  Its pipes are made as small as possible.   child.py WORD TEXTFILE"""
import fcntl, os, sys, time
word, text = sys.argv[1], open(sys.argv[2], "rb").read()
for fd in (0, 1):
    try:
        fcntl.fcntl(fd, 1031, 4096)      # F_SETPIPE_SZ
    except OSError:
        pass
n = word.count("w") + 1
parts = [text[len(text) * i // n:len(text) * (i + 1) // n] for i in range(n)]


def put(b):
    while b:
        b = b[os.write(1, b):]


opened = True
for c in word:
    if c == "r" and opened:
        os.read(0, 4096)
    elif c == "w":
        put(parts.pop(0))
    elif c == "c" and opened:
        os.close(0)
        opened = False
    elif c == "s":
        time.sleep(0.02)
put(parts.pop(0))
