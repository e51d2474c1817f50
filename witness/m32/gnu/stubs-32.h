/* glibc ships no 32-bit stub list here; analysing (never linking) needs none */
