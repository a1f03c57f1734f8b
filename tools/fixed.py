#!/usr/bin/env python3
"""Rewrites the "fixed" lines of known-findings.jsonl from /repo's fix commits and the table below."""
import json, subprocess
T = {
'072174b': ('C12', "in-place evaluation reported the index operators after a splat over no elements (`[][*][b]`), which full evaluation never evaluates"),
'5220f39': ('C01', "an unmodified object whose first key is `for`, directly followed by the operator, was printed with a quoted key (`{ for=1 }` as `{ \"for\"=1 }`)"),
'3e65e21': ('C21', "hcl::to_value, called by a Serialize implementation that hcl is serializing, returned the internal handle of a node (`{ handle = 0 }`)"),
'190cbb2': ('C23', "objects with several members were read as an enum by their first member, dropping the rest"),
'68425d2': ('C23', "tuples, structs and variants read from arrays with more elements dropped the rest"),
'078afeb': ('C21', "a variable field of a user-defined type could be written (`f = x`) but not be read back (invalid identifier `${x}`)"),
'b6562aa': ('C21', "an object expression with identifier keys could not be serialized to values or other formats"),
'5794652': ('C21', "nodes wrapped into blocks and structures in expression position were written as `handle = 0`"),
'3dd5ef1': ('C07', "a number of a parsed document changed through value_mut (the mutable visitor, Formatted) printed its old text: `a = 1` changed to 7 printed `a = 1`"),
'cf52d45': ('C19', "hcl2json exited successfully when its output could not be written (`echo 'a = 1' | hcl2json > /dev/full`)"),
'06afaa7': ('C19', "hcl2json found no files in directories whose names contain glob metacharacters (`hcl2json --glob '*.tf' '[m]0'`)"),
'd7b1df7': ('C06', "trees with empty decor printed identifiers and keywords without anything between them, so that they read back as one"),
'7264f2c': ('C06', "an object whose first key is the identifier `for` printed as `{for = 1}`, which is no object"),
'2c24abe': ('C12', "evaluating an object in place dropped items when keys of unevaluated items became equal on the way"),
'57f56e5': ('C22', "function calls compared equal whether or not the last argument is expanded"),
'c59c383': ('C06', "object items printed without a terminator between them after items were appended to or removed from a parsed object"),
'1f562f3': ('C08', "a reused formatter or serializer started its next output as if it were still in the previous one"),
'89c1c29': ('C09', "template strings within values were formatted without escaping the literals within them"),
'7f71e97': ('C09', "serializing maps with keys that are no identifiers as a body wrote invalid documents instead of failing"),
'd07e037': ('C10', "keys of value objects could not be deserialized as newtype structs and options"),
'ed14ee8': ('C10', "object keys that are keywords (`null`, `true`, `for`) were written unquoted and read back as something else"),
'cb583f7': ('C10', "object keys could only be deserialized as plain strings (not as integers, chars, enums, newtypes)"),
'84fc1d4': ('C10', "documents could not be deserialized as Option<T>"),
'cccad22': ('C18', "parenthesized expressions could not be deserialized as what they enclose"),
'96d9b2e': ('C10', "newtype structs could not be deserialized from values"),
'5aa7f42': ('C18', "object keys that are template expressions were converted to their text with the delimiters instead of the text a template has"),
'bfbd16b': ('C03', "line breaks within for expressions, directives and after unary operators were rejected"),
'4c2e66a': ('C12', "evaluating a for directive in place evaluated its template without the loop variables bound"),
'ae935a7': ('C17', "flush heredocs whose text is still indented after dedenting lost that indentation when converted or formatted"),
'23e46f3': ('C05', "whitespace lines of dedented heredocs changed their meaning when printed"),
'4c88758': ('C13', "flush heredocs with strip markers were not dedented when evaluated as template expressions"),
'74195ee': ('C08', "formatting wrote a literal ending in `$` or `%` directly in front of an interpolation or directive, escaping it"),
'6f397d2': ('C15', "formatting a quoted template wrote the literals without escaping them"),
'29f326b': ('C15', "printing wrote a literal ending in `$` or `%` directly in front of an interpolation or directive, escaping it"),
'604c207': ('C14', "is_i64 was false for non-negative integers that fit"),
'0009ebf': ('C03', "keywords of for expressions and directives were recognised within longer identifiers (`[for xin y : z]`)"),
'fa36049': ('C18', "object keys that are booleans or numbers could not be read as strings"),
'179277e': ('C03', "invalid escape sequences were accepted if preceded by other text in the string"),
'42dd8a1': ('C02', "the column of an error at a multi-byte character was off"),
'aa0a172': ('C01', "trivia around binary and traversal operators was lost or moved when printing"),
'37d7398': ('C05', "keywords of built for expressions and directives were printed without a space before their operands"),
'c8505dc': ('C01', "trivia between the grouping ellipsis and the closing brace moved in front of the ellipsis when printing"),
'f0ef394': ('C03', "line breaks were accepted in places outside of brackets, or rejected within nested ones"),
'd50905d': ('C03', "empty heredocs did not end at their delimiter"),
'05a5b24': ('C08', "formatting an empty heredoc added a line to it"),
'91bd2d0': ('C17', "converting heredocs to the editing model dropped their strip mode"),
'93e9f29': ('C13', "flush heredocs were dedented inconsistently (lines of whitespace, lines starting with an interpolation)"),
'80762b8': ('C03', "escape sequences within the directives of quoted templates were not parsed"),
'9219ed6': ('C15', "literals after a nested template were printed without escaping"),
'4cf5003': ('C07', "the default traversals did not visit the collection expression of template for directives"),
'4a44ae2': ('C03', "chained comparison operators dropped operands (`a < b < c`)"),
'ad5893c': ('C15', "escaping and unescaping missed template markers that follow one another"),
'fc49986': ('C14', "arithmetic without a finite result (division by zero, overflow) gave null instead of an error"),
'53734f2': ('C14', "number conversions and arithmetic were wrong at the integer boundaries"),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixes = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1].startswith('fix: ')]
L = [l for l in open('/verif/known-findings.jsonl') if l.strip() and '"fixed:' not in l]
with open('/verif/known-findings.jsonl', 'w') as f:
    f.writelines(L)
    for h in fixes:
        if h in T:
            p, w = T[h]
            f.write(json.dumps({'property': p, 'status': 'fixed', 'entry': f'fixed: property={p} {h} {w}'}) + '\n')
missing = [l for l in log if l.split(' ', 1)[0] in set(fixes) - set(T) and l.split(' ',1)[0]]
print(len(set(fixes) & set(T)), 'fixed entries; not in the table:', missing[-5:])
