#!/usr/bin/env python3
"""Write a copy of the installed simdjson.h that also offers field::escaped_key().

The repository is written against a simdjson newer than the installed 3.6.4;
the only thing it misses is ondemand field::escaped_key().  This adds that one
method, with upstream's semantics (the raw key text between its quotes), so
that every source file of /repo compiles here whether it uses escaped_key() or
unescaped_key().  Nothing of /repo is patched.
"""
import re, sys
src = open('/usr/include/simdjson.h').read()
out = sys.argv[1]
if 'escaped_key() const' not in src:
    n0 = src.count('simdjson_inline raw_json_string key() const noexcept;')
    src = src.replace(
        'simdjson_inline raw_json_string key() const noexcept;',
        'simdjson_inline raw_json_string key() const noexcept;\n'
        '  inline std::string_view escaped_key() const noexcept {\n'
        '    const char* b = first.raw(); const char* e = b;\n'
        "    while (*e != '\"') { if (*e == '\\\\') e++; e++; }\n"
        '    return std::string_view(b, size_t(e - b));\n  }')
    src, n1 = re.subn(
        r'(simdjson_inline simdjson_result<std::string_view> unescaped_key\(bool allow_replacement = false\) noexcept;)',
        r'\1\n  inline simdjson_result<std::string_view> escaped_key() noexcept {\n'
        r'    if (error()) { return error(); } return first.escaped_key(); }', src)
    assert n0 >= 1 and n0 == n1, (n0, n1)
open(out, 'w').write(src)
