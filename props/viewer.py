"""Common to the checks of the HTML code viewers: collecting what is displayed, and a page which is used by clicking."""
from __future__ import annotations
import html.parser
import json
import os
import subprocess
import sys

from sim import core

NODE_JS = os.path.join(core.VERIF, "sim", "page.js")
_loaded = False


def load_viewer() -> None:
    """the viewers and what they need (IPython, pygments), before the lives are forked"""
    global _loaded
    if not _loaded:
        _loaded = True
        import IPython.display  # noqa
        import pygments.formatters.html  # noqa
        import pygments.lexers.c_cpp  # noqa
        import pygments.lexers.python  # noqa
        import pygments.styles.gruvbox  # noqa
        import codemanip.html_code_viewer.html_code_viewer  # noqa
        import litgen.demo.litgen_demo  # noqa


def collect(into) -> None:
    """(in a life) what is displayed goes to into(html)"""
    import IPython.display
    import IPython.core.display_functions as f

    def display(*objs, **kw):
        for o in objs:
            into(o.data)

    IPython.display.display = f.display = display


class Page(html.parser.HTMLParser):
    """elements (tag, id, onclick, classes, parent) and scripts, in document order"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.items: list = []
        self.stack: list = []
        self.n = 0

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        e = dict(n=self.n, tag=tag, id=a.get("id"), onclick=a.get("onclick"), cls=(a.get("class") or "").split(), parent=self.stack[-1]["n"] if self.stack else None, text="")
        self.n += 1
        self.items.append(e)
        if tag not in ("br", "meta", "img", "input", "link", "hr"):
            self.stack.append(e)

    def handle_endtag(self, tag):
        for k in range(len(self.stack) - 1, -1, -1):
            if self.stack[k]["tag"] == tag:
                del self.stack[k:]
                return

    def handle_data(self, data):
        if self.stack and self.stack[-1]["tag"] == "script":
            self.stack[-1]["text"] += data
            return
        for e in self.stack:
            e["text"] += data


def parse(text: str):
    """-> the items of the page, and its viewers: (index of button, of content, of the copy button, shown code, title)"""
    p = Page()
    p.feed(text)
    p.close()
    up = {e["n"]: e for e in p.items}

    def inside(e, n):
        while e is not None:
            if e["n"] == n:
                return True
            e = up.get(e["parent"])
        return False

    viewers = []
    heads = [e for e in p.items if "collapsible_header" in e["cls"]]
    contents = [e for e in p.items if "collapsible_content" in e["cls"]]
    for h, c in zip(heads, contents):
        copies = [e for e in p.items if e["tag"] == "button" and inside(e, c["n"]) and e is not c]
        pres = [e for e in p.items if e["tag"] == "pre" and inside(e, c["n"])]
        viewers.append((h["n"], c["n"], copies[0]["n"] if copies else None, "".join(e["text"] for e in pres), h["text"]))
    return p.items, viewers, len(heads) == len(contents)


def use_page(items, clicks) -> dict:
    """the page is loaded, and its elements are clicked at in the given order (in node, with a small document model)"""
    r = subprocess.run([os.environ.get("VERIF_NODE", "node"), NODE_JS], input=json.dumps(dict(items=items, clicks=clicks)).encode(), capture_output=True, timeout=120, env={"PATH": os.environ.get("PATH", "/usr/bin")})
    if r.returncode:
        raise core.HarnessError(f"node: {r.stderr.decode()[-500:]}")
    return json.loads(r.stdout)


_ = sys
