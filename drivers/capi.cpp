// Parsed (never linked): the C interface.
#include "/repo/src/heffte_c.cpp"
