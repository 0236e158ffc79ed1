"""The planted bugs; plant.py writes them to seeded/."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "findings"))
from e2e import *  # noqa

D = "daemon/src/"
ALL = []


def pair(s, files=None, files_b=None):
    a = s.daemon(s.project("a", files))
    b = s.daemon(s.project("b", files_b), peer=a)
    assert b.connected()
    for f, c in (files or {}).items():
        assert wait(lambda: read(b.path(f)) == c), f
    return a, b


def bug(id, property, needs, breaks, *edits, uses=(), files=None):
    def deco(f):
        ALL.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=f, uses=uses, files=files))
        return f

    return deco


@bug(
    "B01", "C01",
    "a symlink to a directory in the project, and a peer's new file in a subdirectory of it",
    "directories are created outside of the project before the write is refused",
    (D + "daemon.rs", "                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {",
     "                std::fs::create_dir_all(parent_dir).unwrap_or_else(|_| {"),
)
def demo_b01(s):
    outside = os.path.join(s.dir, "outside")
    os.mkdir(outside)
    pb = s.project("b")
    os.symlink(outside, os.path.join(pb, "link"))
    a = s.daemon(s.project("a", {"link/sub/f": "from the peer\n"}))
    s.daemon(pb, peer=a)
    return not wait(lambda: os.listdir(outside), 5)


@bug(
    "B02", "C02",
    "two editors that have the same file open, one of which closes it",
    "the file is written on disk while the other editor still has it open with unsaved changes",
    (D + "daemon.rs", """            ComponentMessage::Close { file_path } => {
                self.maybe_write_file(file_path);
            }""", """            ComponentMessage::Close { file_path } => {
                // The editor gave up ownership, so we can bring the file up to date.
                if let Ok(text) = self.current_file_content(file_path) {
                    let abs_path = self.absolute_path_for_file_path(file_path);
                    sandbox::write_file(&self.base_dir, &abs_path, text.as_bytes())
                        .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
                }
            }"""),
)
def demo_b02(s):
    a = s.daemon(s.project("a", {"f": "hello\n"}))
    e1, e2 = a.editor(), a.editor()
    e1.open("f")
    e2.open("f")
    e1.edit("f", 0, (0, 0), (0, 0), "X")
    e2.close_file("f")
    time.sleep(1)
    if read(a.path("f")) != "hello\n":
        return False
    e1.close_file("f")
    return wait(lambda: read(a.path("f")) == "Xhello\n", 4)


@bug(
    "B03", "C04",
    "a file is removed from disk while an editor has it open",
    "the file is deleted in the document and at the peers, although the editor goes on editing it",
    (D + "daemon.rs", """                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }""", """                if self.owns(&relative_file_path)
                    || self.crdt_doc.file_exists(&relative_file_path)
                {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }"""),
)
def demo_b03(s):
    a, b = pair(s, {"f": "hello\n"})
    e = a.editor()
    e.open("f")
    os.remove(a.path("f"))
    wait(lambda: not os.path.exists(b.path("f")), 3)
    if not os.path.exists(b.path("f")):
        return False
    e.close_file("f")
    return wait(lambda: read(a.path("f")) == "hello\n", 4)


@bug(
    "B04", "C05",
    "an editor that showed a cursor disconnects, and nothing else changes afterwards",
    "peers keep showing the cursor of an editor that is gone",
    (D + "daemon.rs", """        self.crdt_doc.maybe_delete_cursor_position(cursor_id);
        let _ = self.doc_changed_ping_tx.send(());

        // Send cursor delete to local peers.
        self.broadcast_to_editors(""", """        self.crdt_doc.maybe_delete_cursor_position(cursor_id);
        if self.editor_connections.is_empty() {
            // There is nobody to tell about it.
            return;
        }
        let _ = self.doc_changed_ping_tx.send(());

        // Send cursor delete to local peers.
        self.broadcast_to_editors("""),
)
def demo_b04(s):
    a, b = pair(s, {"f": "hello\n"})
    e, other = a.editor(), b.editor()
    e.cursor("f", (0, 1), (0, 1))
    assert wait(lambda: any(m["params"]["ranges"] for m in other.of("cursor", 0.1)))
    time.sleep(1.5)
    e.disconnect()
    return wait(lambda: any(not m["params"]["ranges"] for m in other.of("cursor", 0.1)), 6)


@bug(
    "B05", "C20",
    "a file that is not UTF-8 appears while the daemon runs",
    "the file is shared with its invalid bytes replaced",
    (D + "daemon.rs", """                        if let Ok(content) = String::from_utf8(content) {
                            self.crdt_doc.initialize_text(&content, &relative_file_path);
                        } else {
                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                        }""", """                        let content = String::from_utf8_lossy(&content);
                        if content.contains('\\0') {
                            warn!("Ignoring newly created binary file {relative_file_path}");
                        } else {
                            self.crdt_doc.initialize_text(&content, &relative_file_path);
                        }"""),
)
def demo_b05(s):
    a, b = pair(s, {"f": "hello\n"})
    with open(os.path.join(s.dir, "latin1"), "wb") as fh:
        fh.write("gr\xfc\xdfe\n".encode("latin-1"))
    os.rename(os.path.join(s.dir, "latin1"), a.path("latin1"))
    with open(a.path("g"), "w") as fh:
        fh.write("g\n")
    assert wait(lambda: read(b.path("g")) == "g\n")
    time.sleep(0.5)
    return not os.path.exists(b.path("latin1"))


for b in ALL:
    if b["demo"] and "pair(" in __import__("inspect").getsource(b["demo"]):
        b["uses"] = (pair,) + tuple(b["uses"])
