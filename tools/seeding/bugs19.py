bug('footnote-not-in-group','C17',[('mau/parsers/document_processors/block.py','''    if footnote_name:
''','''    if footnote_name and not arguments.named_args.get("group"):
''')],'''
out = process("a [footnote](n)\\n\\n[footnote=n, group=g]\\n----\\nx\\n----\\n")
assert len(out["content"]) == 1, out
''','a footnote that also has a group','it is not a footnote')
