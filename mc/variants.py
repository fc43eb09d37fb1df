"""Texts of the same construct that share parts and differ in others

What one call remembers about a construct is wrong for another call with these.
"""

VARIANTS = {
    "paragraph": [
        "Lorem ipsum dolor", "Lorem ipsum\ndolor sit", "dolor Lorem ipsum\n\nLorem ipsum",
    ],
    "inline": [
        "`a  b` [c d](/e) f", "`a  b`` [c d](/e f) f", "``a  b`` [c d][e]<br>f", "a  b [c d] /e f",
    ],
    "hard": ["a b  \nc d", "a b\\\nc d", "a b\nc d", "a b<br>c d"],
    "atx": ["# a b c", "## a b c ##", "### a b c\n# a", "#a b c"],
    "setext": ["a b c\n===", "a b c\n---", "a b\nc\n=", "a b c d\n=== a"],
    "break": ["a b\n\n***\na", "a b\n\n- - -\nb", "a b\n\n___\n\na", "***"],
    "spaced-break": ["a b\n- - -\nb", "- - -\na b", "a b\n\n* * *\n\n- - -", "a b\n--- -"],
    "fence": [
        "```\na\n```\n\na\nb", "~~~~ x\na\n~~~\n~~~~\n\na\nc", "````\na\n```\n\na\nb\n````\n\na\nb",
        "```py\nb\n\na\n",
    ],
    "indented": ["    a\n\n    b\n\nc\nd", "    a\n\nb\n    c", "\ta\n     b\n\nc\nd"],
    "table": [
        "|a|bb|\n|-|-|\n|c|d|\n\na\nb", "|a|bb|\n|:-:|-:|\n|c|ddd|\n|c|d|\n\na\nb",
        "a|bb|cc\n-|-|:-\nc|d|\n\na\nb", "|a|bb|\n|-|-|\n|c|",
    ],
    "definition": [
        "[a]: /b 'c d'\n\na\nb", "[a]: /b\n\na\nb", "[a]: /b \"c\nd\"\n[b]: /b 'c d'\n\na",
        "[a]: /b c d",
    ],
    "bullets": [
        "* a b\n* c\n\n  d\n\na\nb", "- a b\n  - c\n- d\n\na\nb", "+ a b\n+ c\nd\n\na\nb",
        "* a b\n\n      c\n\na\nb",
    ],
    "numbers": [
        "1. a b\n1. c\n\na\nb", "9. a b\n10. c\n    d\n\na\nb", "001. a b\n   1. c\n\na\nb",
        "a b\n2. c",
    ],
    "quote": [
        "> a b\nc\n\na\nb", ">a b\n> > c\n\na\nb", "> * a b\n>   c\n\na\nb", "> ```\n> a b\n\na\nb",
    ],
    "blank": ["a\n\n\n\nb", "\n\na\nb\n\n", " \na\n \nb", "a\nb"],
}
