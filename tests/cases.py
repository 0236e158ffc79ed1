"""Changes of /repo with a known verdict."""
CASES = []
D = "daemon/src/"


def bug(name, props, *edits):
    CASES.append({"name": name, "kind": "bug", "props": props.split(), "edits": edits})


def same(name, *edits):
    CASES.append({"name": name, "kind": "same", "props": [], "edits": edits})


# -- C01 ------------------------------------------------------------------------
S = D + "sandbox.rs"
bug("c01-write-uncanonical", "C01", (S, "    fs::write(canonical_file_path, content)?;", "    fs::write(absolute_file_path, content)?;"))
bug("c01-no-symlink-test", "C01", (S, "    if canonical_file_path.is_symlink() {", "    if canonical_file_path.is_symlink() && content.is_empty() {"))
bug("c01-prefix-uncanonical", "C01", (S, "    if !canonical_path.starts_with(canonical_base_dir) {", "    if !path.starts_with(base_dir) {"))
bug("c01-prefix-lexical", "C01", (S, """        .canonicalize()
        .context("Failed to canonicalize path, probably the file disappeared already")?;""", """        .metadata()
        .map(|_| prefix_path.clone())
        .context("Failed to canonicalize path, probably the file disappeared already")?;"""))
bug("c01-only-error-logged", "C01", (S, """        bail!("File path is not inside the base directory.");""", """        tracing::warn!("File path is not inside the base directory.");"""))
bug("c01-remove-direct", "C01", (S, """pub fn remove_file(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<()> {
    let canonical_file_path =
        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;""", """pub fn remove_file(_absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<()> {
    let canonical_file_path = absolute_and_canonicalized(absolute_file_path)?;"""))
bug("c01-parent-components", "C01", (S, """        } else {
            panic!("Got unexpected Component variant while canonicalizing");
        }""", """        } else {
            suffix_path = Path::new(component.as_os_str()).join(&suffix_path);
        }"""))
bug("c01-root-base-open", "C01", (D + "editor_connection.rs", "                let bytes = sandbox::read_file(&self.base_dir, &absolute_path)", """                let bytes = sandbox::read_file(std::path::Path::new("/"), &absolute_path)"""))
bug("c01-parent-base", "C01", (D + "daemon.rs", "                        EditorConnection::new(editor_connection_id, self.base_dir.clone()),", "                        EditorConnection::new(editor_connection_id, self.base_dir.join(\"..\")),"))
bug("c01-direct-read", "C01", (D + "daemon.rs", """                        sandbox::read_file(&self.base_dir, Path::new(&file_path))
                            .map(String::from_utf8)""", """                        std::fs::read(&file_path)
                            .map(String::from_utf8)"""))
same("c01-inline-check", (S, """    let canonical_file_path =
        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
    let bytes = fs::read(canonical_file_path)?;
    Ok(bytes)""", """    let base = absolute_and_canonicalized(absolute_base_dir)?;
    let file = absolute_and_canonicalized(absolute_file_path)?;
    if file.starts_with(&base) {
        return Ok(fs::read(&file)?);
    }
    bail!("File path is not inside the base directory.")"""))
same("c01-bool-helper", (S, """    if !canonical_path.starts_with(canonical_base_dir) {
        bail!("File path is not inside the base directory.");
    }

    Ok(canonical_path)
}
""", """    if is_inside(&canonical_base_dir, &canonical_path) {
        Ok(canonical_path)
    } else {
        Err(anyhow::anyhow!("File path is not inside the base directory."))
    }
}

fn is_inside(base: &Path, path: &Path) -> bool {
    path.starts_with(base)
}
"""))
same("c01-open-write", (S, """    fs::write(canonical_file_path, content)?;
    Ok(())""", """    let mut file = OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(&canonical_file_path)?;
    file.write_all(content)?;
    Ok(())"""))

# -- C02 ------------------------------------------------------------------------
DA = D + "daemon.rs"
EC = D + "editor_connection.rs"
bug("c02-no-owner-check", "C02", (DA, "        if self.owns(file_path) {\n            if let Ok(text)", "        {\n            if let Ok(text)"))
bug("c02-first-editor-only", "C02", (DA, "            .values()\n            .any(|connection| connection.0.owns(file_path))", "            .values()\n            .take(1)\n            .any(|connection| connection.0.owns(file_path))"))
bug("c02-all-editors", "C02 C04", (DA, "        !self\n            .editor_connections\n            .values()\n            .any(|connection| connection.0.owns(file_path))", "        !(!self.editor_connections.is_empty() && self\n            .editor_connections\n            .values()\n            .all(|connection| connection.0.owns(file_path)))"))
bug("c02-other-path", "C02", (DA, "        if self.owns(file_path) {\n            if let Ok(text)", "        if self.owns(&RelativePath::new(TEST_FILE_PATH)) {\n            if let Ok(text)"))
bug("c02-drop-on-error", "C02", (EC, """                if self.ot_servers.get_mut(&relative_path).is_none() {""", """                if delta.0.is_empty() {
                    self.ot_servers.remove(&relative_path);
                }

                if self.ot_servers.get_mut(&relative_path).is_none() {"""))
bug("c02-write-on-open", "C02", (DA, """            ComponentMessage::Close { file_path } => {
                self.maybe_write_file(file_path);""", """            ComponentMessage::Close { file_path } => {
                if let Ok(text) = self.current_file_content(file_path) {
                    let abs_path = self.absolute_path_for_file_path(file_path);
                    let _ = sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes());
                }"""))
same("c02-loop", (DA, "        !self\n            .editor_connections\n            .values()\n            .any(|connection| connection.0.owns(file_path))", "        for (connection, _) in self.editor_connections.values() {\n            if connection.owns(file_path) {\n                return false;\n            }\n        }\n        true"))
same("c02-early-return", (DA, "        // Only write to the file if editor *doesn't* have the file open.\n        if self.owns(file_path) {\n            if let Ok(text)", "        if !self.owns(file_path) {\n            return;\n        }\n        {\n            if let Ok(text)"))
same("c02-helper", (DA, """                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
            } else {""", """                self.write_text(&abs_path, text);
            } else {"""), (DA, """    // TODO: Should this also go to the sandbox module?
    fn build_walk""", """    fn write_text(&self, abs_path: &AbsolutePath, text: String) {
        sandbox::write_file(&self.base_dir, abs_path, &text.into_bytes())
            .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
    }

    // TODO: Should this also go to the sandbox module?
    fn build_walk"""))
same("c02-all-negated", (DA, "        !self\n            .editor_connections\n            .values()\n            .any(|connection| connection.0.owns(file_path))", "        self.editor_connections\n            .iter()\n            .all(|(_, (connection, _))| !connection.owns(file_path))"))

# -- C16 ------------------------------------------------------------------------
PA = D + "path.rs"
bug("c16-only-first", "C16", (PA, "self.iter()\n            .any(", "self.iter()\n            .take(1)\n            .any("))
bug("c16-only-git", "C16", (PA, 'component == ".git" || component == ".ethersync"', 'component == ".git"'))
bug("c16-write-unchecked", "C16", (DA, "        if file_path.is_reserved() {", "        if file_path.is_reserved() && self.editor_connections.is_empty() {"))
bug("c16-remove-unchecked", "C16", (DA, "PatchEffect::FileRemoval(file_path) if file_path.is_reserved() =>", "PatchEffect::FileRemoval(file_path) if file_path.is_reserved() && file_deltas.is_empty() =>"))
bug("c16-prefix-only", "C16", (PA, """        self.iter()
            .any(|component| component == ".git" || component == ".ethersync")""", """        let path: &Path = self;
        path.starts_with(".git") || path.starts_with(".ethersync")"""))
same("c16-check-in-callers", (DA, """        if file_path.is_reserved() {
            warn!("Not writing {file_path}, because it is never shared.");
            return;
        }

""", ""), (DA, """        for file_path in file_paths {
            self.maybe_write_file(file_path);""", """        for file_path in file_paths {
            if file_path.is_reserved() {
                continue;
            }
            self.maybe_write_file(file_path);"""))
same("c16-contains", (PA, """            .any(|component| component == ".git" || component == ".ethersync")""", """            .any(|component| [".git", ".ethersync"].iter().any(|name| component == *name))"""))
same("c16-loop", (PA, """        self.iter()
            .any(|component| component == ".git" || component == ".ethersync")""", """        for component in self.iter() {
            if component == ".git" || component == ".ethersync" {
                return true;
            }
        }
        false"""))
same("c16-contains2", (PA, """            .any(|component| component == ".git" || component == ".ethersync")""", """            .any(|component| [".git", ".ethersync"].contains(&component.to_str().unwrap_or_default()))"""))
same("c16-components", (PA, """        self.iter()
            .any(|component| component == ".git" || component == ".ethersync")""", """        self.components()
            .any(|component| matches!(component.as_os_str().to_str(), Some(".git" | ".ethersync")))"""))

# -- C04 ------------------------------------------------------------------------
bug("c04-removed", "C04", (DA, """                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);""", """                if self.crdt_doc.file_exists(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);"""))
bug("c04-created-new", "C04", (DA, """                if self.owns(&relative_file_path) {
                    if !self.crdt_doc.file_exists(&relative_file_path) {""", """                if self.owns(&relative_file_path) || !self.crdt_doc.file_exists(&relative_file_path) {
                    if !self.crdt_doc.file_exists(&relative_file_path) {"""))
bug("c04-changed-inverted", "C04", (DA, """                if self.owns(&relative_file_path) {
                    let new_content""", """                if self.owns(&relative_file_path) || self.editor_connections.len() > 1 {
                    let new_content"""))
same("c04-guard-first", (DA, """            WatcherEvent::Removed { file_path } => {
                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                    .expect("Watcher event should have a path within the base directory");
                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }
            }""", """            WatcherEvent::Removed { file_path } => self.handle_removed(&file_path),"""), (DA, """    fn apply_sync_message_to_doc(""", """    fn handle_removed(&mut self, file_path: &Path) {
        let relative_file_path = RelativePath::try_from_path(&self.base_dir, file_path)
            .expect("Watcher event should have a path within the base directory");
        if !self.owns(&relative_file_path) {
            return;
        }
        self.crdt_doc.remove_text(&relative_file_path);
        let _ = self.doc_changed_ping_tx.send(());
    }

    fn apply_sync_message_to_doc("""))

# -- C20 ------------------------------------------------------------------------
bug("c20-lossy-created", "C20", (DA, "                        if let Ok(content) = String::from_utf8(content) {\n                            self.crdt_doc.initialize_text(&content, &relative_file_path);\n                        } else {\n                            warn!(\"Ignoring newly created non-UTF-8 file {relative_file_path}\");\n                        }", "                        let content = String::from_utf8_lossy(&content);\n                        self.crdt_doc.initialize_text(&content, &relative_file_path);"))
bug("c20-default-walk", "C20", (DA, """                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {""", """                        let text = String::from_utf8(bytes).unwrap_or_default();
                        {
                            if init {"""), (DA, """                        } else {
                            warn!("Ignoring non-UTF-8 file {relative_file_path}",)
                        }""", "                        }"))
bug("c20-prefix", "C20", (DA, """                    if let Ok(new_content) = String::from_utf8(new_content) {""", """                    let valid = std::str::from_utf8(&new_content).map_err(|e| e.valid_up_to());
                    if let Ok(new_content) = match valid {
                        Ok(text) => Ok::<String, ()>(text.to_string()),
                        Err(n) => Ok(String::from_utf8(new_content[..n].to_vec()).unwrap_or_default()),
                    } {"""))
bug("c20-open-lossy", "C20", (EC, """                let text = String::from_utf8(bytes)
                    .context("Failed to convert bytes to string")
                    .map_err(anyhow_err_to_protocol_err)?;""", """                let text = String::from_utf8(bytes)
                    .unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned());"""))
bug("c20-chars", "C20", (DA, """                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {""", """                        if let Ok(text) = Ok::<String, ()>(bytes.iter().map(|b| *b as char).collect()) {
                            if init {"""))
same("c20-match", (DA, """                    if let Ok(new_content) = String::from_utf8(new_content) {
                        self.crdt_doc.update_text(&new_content, &relative_file_path);
                        let _ = self.doc_changed_ping_tx.send(());
                    } else {
                        warn!("Ignoring changed non-UTF-8 file {relative_file_path}");
                    }""", """                    match std::str::from_utf8(&new_content) {
                        Err(_) => warn!("Ignoring changed non-UTF-8 file {relative_file_path}"),
                        Ok(text) => {
                            self.crdt_doc.update_text(text, &relative_file_path);
                            let _ = self.doc_changed_ping_tx.send(());
                        }
                    }"""))
same("c20-helper", (DA, """                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {""", """                        if let Some(text) = decode(bytes) {
                            if init {"""), (DA, """async fn spawn_file_watcher(""", """fn decode(bytes: Vec<u8>) -> Option<String> {
    String::from_utf8(bytes).ok()
}

async fn spawn_file_watcher("""))
bug("c20-open-default", "C20", (EC, """                let text = String::from_utf8(bytes)
                    .context("Failed to convert bytes to string")
                    .map_err(anyhow_err_to_protocol_err)?;""", """                let text = String::from_utf8(bytes).unwrap_or_default();"""))

# -- C03 --------------------------------------------------------------------------
bug("c03-close", "C03", (DA, """            ComponentMessage::Close { file_path } => {
                self.maybe_write_file(file_path);
            }""", """            ComponentMessage::Close { file_path } => {
                debug!("closed {file_path}");
            }"""))
bug("c03-same-length", "C03", (DA, """                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));""", """                let size = std::fs::metadata(&*abs_path).map(|m| m.len()).unwrap_or(0);
                if size == text.len() as u64 {
                    return;
                }
                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));"""))
bug("c03-empty", "C03", (DA, "            if let Ok(text) = self.current_file_content(file_path) {\n", "            if let Some(text) = self.current_file_content(file_path).ok().filter(|t| !t.is_empty()) {\n"))
bug("c03-one-file", "C03", (DA, "            for file_path in connection.open_files() {", "            for file_path in connection.open_files().take(1) {"))
bug("c03-last-editor", "C03", (DA, """            for file_path in connection.open_files() {
                self.maybe_write_file(file_path);
            }""", """            for file_path in connection.open_files() {
                if !self.editor_connections.is_empty() {
                    continue;
                }
                self.maybe_write_file(file_path);
            }"""))
bug("c03-before", "C03", (DA, """        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
            for file_path in connection.open_files() {
                self.maybe_write_file(file_path);
            }
        }""", """        let files: Vec<_> = self
            .editor_connections
            .get(editor_id)
            .map(|c| c.0.open_files().cloned().collect())
            .unwrap_or_default();
        for file_path in files {
            self.maybe_write_file(&file_path);
        }
        self.editor_connections.remove(editor_id);"""))
bug("c03-send-error", "C03", (DA, "            self.remove_editor_connection(editor_id);\n        });", "            self.editor_connections.remove(editor_id);\n        });"))
bug("c03-close-notify-only", "C03", (DA, """        self.inside_message_to_doc(&inside_message).await;
        self.broadcast_to_editors(Some(editor_id), &inside_message)""", """        if !messages_to_editor.is_empty() || !matches!(inside_message, ComponentMessage::Close { .. }) {
            self.inside_message_to_doc(&inside_message).await;
        }
        self.broadcast_to_editors(Some(editor_id), &inside_message)"""))
same("c03-collect", (DA, """            for file_path in connection.open_files() {
                self.maybe_write_file(file_path);
            }""", """            let files: Vec<RelativePath> = connection.open_files().cloned().collect();
            for file_path in &files {
                self.maybe_write_file(file_path);
            }"""))
same("c03-for-each", (DA, """            for file_path in connection.open_files() {
                self.maybe_write_file(file_path);
            }""", """            connection.open_files().for_each(|file_path| self.maybe_write_file(file_path));"""))
same("c03-owner-first", (DA, """            ComponentMessage::Close { file_path } => {
                self.maybe_write_file(file_path);
            }""", """            ComponentMessage::Close { file_path } => {
                if self.owns(file_path) {
                    self.maybe_write_file(file_path);
                } else {
                    debug!("still open elsewhere");
                }
            }"""))
same("c03-only-if-removed", (EC, """                self.ot_servers.remove(&relative_path);
""", """                if self.ot_servers.remove(&relative_path).is_none() {
                    return Err(EditorProtocolMessageError {
                        code: -1,
                        message: "File not found".into(),
                        data: None,
                    });
                }
"""))

# -- C22 -----------------------------------------------------------------------------
WA = D + "watcher.rs"
DO = D + "document.rs"
bug("c22-both-first-only", "C22", (WA, """                    if let Some(e) = created {
                        self.out_queue.push_back(e);
                    }

                    if let Some(e) = removed {
                        return Some(e);
                    }
""", """                    if let Some(e) = created.or(removed) {
                        return Some(e);
                    }
"""))
bug("c22-both-swapped", "C22", (WA, """                    let removed = self.maybe_removed(&event.paths[0]);
                    let created = self.maybe_created(&event.paths[1]);
""", """                    let removed = self.maybe_removed(&event.paths[1]);
                    let created = self.maybe_created(&event.paths[0]);
"""))
bug("c22-data-content", "C22", (WA, "ModifyKind::Data(_)", "ModifyKind::Data(notify::event::DataChange::Content)"))
bug("c22-try-send", "C22", (WA, """            futures::executor::block_on(async {
                tx.send(res).await.unwrap();
            });
""", """            let _ = tx.try_send(res);
"""))
bug("c22-only-ok", "C22", (WA, """            futures::executor::block_on(async {
                tx.send(res).await.unwrap();
            });
""", """            if res.as_ref().map_or(false, |e| e.paths.len() == 1) {
                futures::executor::block_on(async {
                    tx.send(res).await.unwrap();
                });
            }
"""))
bug("c22-removed-hidden", "C22", (WA, """        // TODO: We should check whether the file was ignored here. But how?
        Some""", """        if !sandbox::exists(&self.base_dir, file_path.parent()?).unwrap_or(false) {
            return None;
        }
        Some"""))
bug("c22-removed-owned", "C22", (WA, """        // TODO: We should check whether the file was ignored here. But how?
        Some""", """        if sandbox::ignored(&self.base_dir, file_path).unwrap_or(true) {
            return None;
        }
        Some"""))
bug("c22-non-recursive", "C22", (WA, "RecursiveMode::Recursive)", "RecursiveMode::NonRecursive)"))
bug("c22-changed-if-known", "C22", (DA, """                // Only update if we own the file.
                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                    .expect("Watcher event should have a path within the base directory");
                if self.owns(&relative_file_path) {""", """                // Only update if we own the file.
                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                    .expect("Watcher event should have a path within the base directory");
                if self.owns(&relative_file_path) && self.crdt_doc.file_exists(&relative_file_path) {"""))
bug("c22-changed-empty", "C22", (DA, "if let Ok(new_content) = String::from_utf8(new_content) {", "if let Some(new_content) = String::from_utf8(new_content).ok().filter(|c| !c.is_empty()) {"))
bug("c22-trim", "C22", (DO, "            let chunks = dissimilar::diff(&current_text, desired_text);", "            let chunks = dissimilar::diff(current_text.trim_end(), desired_text);"), (DO, """            let text_delta: TextDelta = chunks.into();
""", """            if desired_text.is_empty() {
                return;
            }
            let text_delta: TextDelta = chunks.into();
"""))
bug("c22-single-chunk", "C22", (DO, "if let [] | [Chunk::Equal(_)] = chunks.as_slice() {", "if chunks.len() <= 1 {"))
bug("c22-remove-empty-only", "C22", (DO, "        if self.text_obj(file_path).is_err() {\n            debug!(\"Failed", "        if self.text_obj(file_path).is_err() || self.current_file_content(file_path).map_or(true, |t| t.is_empty()) {\n            debug!(\"Failed"))
bug("c22-break", "C22", (DO, """            offset -= length as isize;
""", """            if length == 0 && op.replacement.is_empty() {
                break;
            }
            offset -= length as isize;
"""))
bug("c22-other-path", "C22", (DA, """                    if let Ok(new_content) = String::from_utf8(new_content) {
                        self.crdt_doc.update_text(&new_content, &relative_file_path);""", """                    if let Ok(new_content) = String::from_utf8(new_content) {
                        self.crdt_doc.update_text(&new_content, &RelativePath::new(TEST_FILE_PATH));"""))
bug("c22-no-editors", "C22", (DA, """            DocMessage::FromWatcher(watcher_event) => {
                self.handle_watcher_event(watcher_event).await;""", """            DocMessage::FromWatcher(watcher_event) => {
                if self.save_fully {
                    return;
                }
                self.handle_watcher_event(watcher_event).await;"""))
bug("c22-dedup", "C22", (DA, """    while let Some(watcher_event) = watcher.next().await {
        document_handle""", """    let mut last = None;
    while let Some(watcher_event) = watcher.next().await {
        let this = format!("{watcher_event:?}");
        if last.as_ref() == Some(&this) {
            continue;
        }
        last = Some(this);
        document_handle"""))
same("c22-helper", (WA, """    fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
        match sandbox::ignored(&self.base_dir, file_path) {
            Ok(is_ignored) => {
                if is_ignored {
                    debug!("Ignoring creation of '{}'", file_path.display());
                    return None;
                }
                // We only dispatch the event, if ignore check worked and it's not ignored.
            }
            Err(error) => {
                debug!(
                    "Ignoring creation of '{}' because of an error: {}",
                    file_path.display(),
                    error
                );
                return None;
            }
        }

        Some""", """    fn is_shareable(&self, file_path: &Path) -> bool {
        sandbox::ignored(&self.base_dir, file_path).is_ok_and(|ignored| !ignored)
    }

    fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
        if !self.is_shareable(file_path) {
            debug!("Ignoring creation of '{}'", file_path.display());
            return None;
        }

        Some"""))
same("c22-queue-all", (WA, """                    if let Some(e) = removed {
                        return Some(e);
                    }
""", """                    if let Some(e) = removed {
                        self.out_queue.push_front(e);
                    }
"""))
same("c22-read-helper", (DA, """                    let new_content = match sandbox::read_file(
                        &self.base_dir,
                        Path::new(&file_path),
                    ) {
                        Ok(content) => content,
                        Err(e) => {
                            warn!(
                                    "The file watcher noticed a file change for {relative_file_path}, \\
                                    but we couldn't read it: {e} (probably it was deleted after the change?)"
                            );
                            return;
                        }
                    };
                    if let Ok(new_content) = String::from_utf8(new_content) {""", """                    let Some(new_content) = self.read_or_warn(&file_path) else {
                        return;
                    };
                    if let Ok(new_content) = String::from_utf8(new_content) {"""), (DA, """    fn apply_sync_message_to_doc(""", """    fn read_or_warn(&self, file_path: &Path) -> Option<Vec<u8>> {
        match sandbox::read_file(&self.base_dir, file_path) {
            Ok(content) => Some(content),
            Err(e) => {
                warn!("Could not read {}: {e}", file_path.display());
                None
            }
        }
    }

    fn apply_sync_message_to_doc("""))
same("c22-always-update", (DA, """                    if !self.crdt_doc.file_exists(&relative_file_path) {
                        let content = match""", """                    if true {
                        let content = match"""), (DA, "self.crdt_doc.initialize_text(&content, &relative_file_path);", "self.crdt_doc.update_text(&content, &relative_file_path);"))
same("c22-splice-while", (DO, """        for op in &ed_delta.0 {
            let (start, length) = op.range.as_relative(&text);""", """        let mut ops = ed_delta.0.iter();
        while let Some(op) = ops.next() {
            let (start, length) = op.range.as_relative(&text);"""))
same("c22-early-return", (DA, """                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }
""", """                if !self.owns(&relative_file_path) {
                    return;
                }
                self.crdt_doc.remove_text(&relative_file_path);
                let _ = self.doc_changed_ping_tx.send(());
"""))

# -- C06 -------------------------------------------------------------------------
TY = D + "types.rs"
bug("c06-skip-empty", "C06", (DA, """                        PatchEffect::FileChange(file_text_delta) => {
                            file_deltas.push(file_text_delta);
""", """                        PatchEffect::FileChange(file_text_delta) => {
                            if file_text_delta.delta == TextDelta::default() {
                                continue;
                            }
                            file_deltas.push(file_text_delta);
"""))
bug("c06-filter", "C06", (DA, "for file_text_delta in &file_deltas {\n                    let message", "for file_text_delta in file_deltas.iter().filter(|d| d.delta != TextDelta::default()).take(100) {\n                    let message"))
bug("c06-reverse", "C06", (DA, "for file_text_delta in &file_deltas {\n                    let message", "for file_text_delta in file_deltas.iter().rev() {\n                    let message"))
bug("c06-break", "C06", (DA, """                        PatchEffect::NoEffect => {}
""", """                        PatchEffect::NoEffect => break,
"""))
bug("c06-no-tell", "C06", (DA, """                    self.broadcast_to_editors(None, &message).await;
                }
                for cursor_state in""", """                    if !self.owns(&file_text_delta.file_path) {
                        continue;
                    }
                    self.broadcast_to_editors(None, &message).await;
                }
                for cursor_state in"""))
bug("c06-cursor-last", "C06", (DA, "                for cursor_state in &cursor_states {", "                if let Some(cursor_state) = cursor_states.last() {"))
bug("c06-write-first", "C06", (DA, "for FileTextDelta { file_path, .. } in file_deltas {\n", "for FileTextDelta { file_path, .. } in file_deltas.iter().take(1) {\n"))
bug("c06-write-nonempty", "C06", (DA, """            file_paths.insert(file_path);
""", """            if self.crdt_doc.file_exists(file_path) && file_deltas.len() > 1 {
                file_paths.insert(file_path);
            }
"""))
bug("c06-remove-unless-open", "C06", (DA, "PatchEffect::FileRemoval(file_path) if file_path.is_reserved() => {", "PatchEffect::FileRemoval(file_path) if file_path.is_reserved() || file_deltas.is_empty() => {"))
bug("c06-err-skip", "C06", (TY, """                    panic!("Failed to convert patch to delta: {e:#?}");
""", """                    debug!("Failed to convert patch to delta: {e:#?}");
"""))
bug("c06-index", "C06", (TY, """                            delta.retain(index);
                            delta.delete(length);
""", """                            delta.delete(length);
                            delta.retain(index);
"""))
bug("c06-conflict", "C06", (TY, """                                );
                            }
                            Ok(PatchEffect::FileChange(FileTextDelta::new(path, delta)))
""", """                                );
                                return Ok(PatchEffect::NoEffect);
                            }
                            Ok(PatchEffect::FileChange(FileTextDelta::new(path, delta)))
"""))
bug("c06-exclude", "C06", (DA, """                        ranges: cursor_state.ranges.clone(),
                    };
                    self.broadcast_to_editors(None, &message).await;""", """                        ranges: cursor_state.ranges.clone(),
                    };
                    let only = self.editor_connections.keys().next().copied();
                    self.broadcast_to_editors(only, &message).await;"""))
bug("c06-twice", "C06", (DA, """                        ranges: cursor_state.ranges.clone(),
                    };
                    self.broadcast_to_editors(None, &message).await;""", """                        ranges: cursor_state.ranges.clone(),
                    };
                    self.broadcast_to_editors(None, &message).await;
                    self.broadcast_to_editors(None, &message).await;"""))
bug("c06-delete-key", "C06", (TY, """                            Ok(PatchEffect::FileRemoval(path))
""", """                            let _ = path;
                            Ok(PatchEffect::NoEffect)
"""))
bug("c06-other-log", "C06", (DO, """        self.doc.make_patches(&mut patch_log)
""", """        let mut patch_log = PatchLog::active(TextRepresentation::String);
        self.doc.make_patches(&mut patch_log)
"""))
same("c06-direct", (DA, """                        PatchEffect::FileChange(file_text_delta) => {
                            file_deltas.push(file_text_delta);
""", """                        PatchEffect::FileChange(file_text_delta) => {
                            self.maybe_write_file(&file_text_delta.file_path);
                            self.broadcast_to_editors(
                                None,
                                &ComponentMessage::Edit {
                                    file_path: file_text_delta.file_path.clone(),
                                    delta: file_text_delta.delta.clone(),
                                },
                            )
                            .await;
                            file_deltas.push(file_text_delta);
"""), (DA, """                self.maybe_write_files_changed_in_file_deltas(&file_deltas);
                for file_text_delta in &file_deltas {
                    let message = ComponentMessage::Edit {
                        file_path: file_text_delta.file_path.clone(),
                        delta: file_text_delta.delta.clone(),
                    };
                    self.broadcast_to_editors(None, &message).await;
                }
""", ""))
same("c06-collect", (TY, """        let mut file_deltas: Vec<Self> = vec![];

        for patch in patches {
            match patch.try_into() {
                Ok(result) => {
                    file_deltas.push(result);
                }
                Err(e) => {
                    panic!("Failed to convert patch to delta: {e:#?}");
                }
            }
        }

        file_deltas
""", """        patches
            .into_iter()
            .map(|patch| {
                patch
                    .try_into()
                    .expect("Failed to convert patch to delta")
            })
            .collect()
"""))
same("c06-filter-map", (DA, """                self.maybe_write_files_changed_in_file_deltas(&file_deltas);
                for""", """                let file_deltas: Vec<FileTextDelta> = file_deltas.into_iter().collect();
                self.maybe_write_files_changed_in_file_deltas(&file_deltas);
                for"""))
same("c06-helper", (DA, """                for cursor_state in &cursor_states {
                    let message = ComponentMessage::Cursor {
                        cursor_id: cursor_state.cursor_id.clone(),
                        name: cursor_state.name.clone(),
                        file_path: cursor_state.file_path.clone(),
                        ranges: cursor_state.ranges.clone(),
                    };
                    self.broadcast_to_editors(None, &message).await;
                }
""", """                self.show_cursors(&cursor_states).await;
"""), (DA, """    async fn maybe_delete_cursor_position(""", """    async fn show_cursors(&mut self, cursor_states: &[crate::types::CursorState]) {
        for cursor_state in cursor_states {
            let message = ComponentMessage::Cursor {
                cursor_id: cursor_state.cursor_id.clone(),
                name: cursor_state.name.clone(),
                file_path: cursor_state.file_path.clone(),
                ranges: cursor_state.ranges.clone(),
            };
            self.broadcast_to_editors(None, &message).await;
        }
    }

    async fn maybe_delete_cursor_position("""))
same("c06-handler-fn", (DA, """                let patches = self.apply_sync_message_to_doc(message, &mut peer_state);

                let patch_effects = PatchEffect::from_crdt_patches(patches);
""", """                let patch_effects = self.received(message, &mut peer_state);
"""), (DA, """    async fn maybe_delete_cursor_position(""", """    fn received(&mut self, message: AutomergeSyncMessage, peer_state: &mut SyncState) -> Vec<PatchEffect> {
        let patches = self.apply_sync_message_to_doc(message, peer_state);
        PatchEffect::from_crdt_patches(patches)
    }

    async fn maybe_delete_cursor_position("""))
same("c06-two-effect-lists", (DA, """                for patch_effect in patch_effects {
                    match patch_effect {
                        PatchEffect::FileChange""", """                let mut changes = Vec::new();
                for patch_effect in patch_effects {
                    if let PatchEffect::NoEffect = patch_effect {
                        continue;
                    }
                    changes.push(patch_effect);
                }
                for patch_effect in changes {
                    match patch_effect {
                        PatchEffect::FileChange"""))
bug("c06-two-lists", "C06", (DA, """                for patch_effect in patch_effects {
                    match patch_effect {
                        PatchEffect::FileChange(file_text_delta) => {
""", """                let mut changes = Vec::new();
                for patch_effect in patch_effects {
                    if let PatchEffect::NoEffect = patch_effect {
                        continue;
                    }
                    changes.push(patch_effect);
                }
                for patch_effect in changes {
                    match patch_effect {
                        PatchEffect::FileChange(file_text_delta) => {
                            if file_text_delta.delta == TextDelta::default() {
                                continue;
                            }
"""))

# -- C13 ------------------------------------------------------------------------
ED = D + "editor.rs"
bug("c13-no-invalid-answer", "C13", (DA, """                error!("Error for JSON-RPC request: {:?}", response);
                self.send_to_editor_client(&editor_id, EditorProtocolObject::Response(response))
                    .await;
""", """                error!("Error for JSON-RPC request: {:?}", response);
"""))
bug("c13-error-only", "C13", (DA, """                        Ok(_) => JSONRPCResponse::RequestSuccess {
                            id,
                            result: "success".into(),
                        },
""", """                        Ok(_) => return,
"""))
bug("c13-error-no-id", "C13", (DA, """                            JSONRPCResponse::RequestError {
                                id: Some(id),
""", """                            JSONRPCResponse::RequestError {
                                id: None,
"""))
bug("c13-notification-answered", "C13", (DA, """                    let _ = self.react_to_message_from_editor(editor_id, &payload).await;
""", """                    if let Err(error) = self.react_to_message_from_editor(editor_id, &payload).await {
                        let response = JSONRPCResponse::RequestError { id: None, error };
                        self.send_to_editor_client(&editor_id, EditorProtocolObject::Response(response)).await;
                    }
"""))
bug("c13-early-success", "C13", (DA, """                    let result = self.react_to_message_from_editor(editor_id, &payload).await;
                    let response = match result {
                        Err(error) => {""", """                    let result = self.react_to_message_from_editor(editor_id, &payload).await;
                    let response = match result {
                        Err(error) if error.code != -1 => {"""), (DA, "                        Ok(_) => JSONRPCResponse::RequestSuccess {", "                        _ => JSONRPCResponse::RequestSuccess {"))
bug("c13-twice", "C13", (DA, """                            error!("Error for JSON-RPC request: {:?}", error);
                            JSONRPCResponse""", """                            error!("Error for JSON-RPC request: {:?}", error);
                            self.send_to_editor_client(
                                &editor_id,
                                EditorProtocolObject::Response(JSONRPCResponse::RequestError { id: None, error: error.clone() }),
                            )
                            .await;
                            JSONRPCResponse"""))
bug("c13-empty-line", "C13", (ED, """        while let Some(Ok(line)) = reader.next().await {
""", """        while let Some(Ok(line)) = reader.next().await {
            if line.len() > 1_000_000 {
                continue;
            }
"""))
bug("c13-stop-reading", "C13", (ED, """        while let Some(Ok(line)) = reader.next().await {
""", """        while let Some(Ok(line)) = reader.next().await {
            if line.is_empty() {
                break;
            }
"""))
bug("c13-quiet-drop", "C13", (DA, "                if !self.editor_connections.contains_key(&editor_id) {\n                    debug!(\"Ignoring", "                if !self.editor_connections.contains_key(&editor_id) || message.is_empty() {\n                    debug!(\"Ignoring"))
bug("c13-other-editor", "C13", (DA, """                    self.send_to_editor_client(
                        &editor_id,
                        EditorProtocolObject::Response(response),""", """                    let first_id = self.editor_connections.keys().min().copied().unwrap_or(editor_id);
                    self.send_to_editor_client(
                        &first_id,
                        EditorProtocolObject::Response(response),"""))
bug("c13-loop-skip", "C13", (DA, """            self.handle_message(message).await;
        }
        debug!""", """            if matches!(&message, DocMessage::FromEditor(_, m) if m.len() > 65536) {
                continue;
            }
            self.handle_message(message).await;
        }
        debug!"""))
bug("c13-no-apply", "C13", (DA, """        self.inside_message_to_doc(&inside_message).await;
        self.broadcast_to_editors(Some(editor_id), &inside_message)""", """        if !matches!(inside_message, ComponentMessage::Open { .. }) {
            self.inside_message_to_doc(&inside_message).await;
        }
        self.broadcast_to_editors(Some(editor_id), &inside_message)"""))
bug("c13-sender-skips", "C13", (DA, """        connection.1.send(message).await.unwrap_or_else(|err| {""", """        if matches!(message, EditorProtocolObject::Response(JSONRPCResponse::RequestSuccess { id: 0, .. })) {
            return;
        }
        connection.1.send(message).await.unwrap_or_else(|err| {"""))
same("c13-answer-helper", (DA, """                    self.send_to_editor_client(
                        &editor_id,
                        EditorProtocolObject::Response(response),
                    )
                    .await;
                }
""", """                    self.answer(editor_id, response).await;
                }
"""), (DA, """    async fn handle_watcher_event(&mut""", """    async fn answer(&mut self, editor_id: EditorId, response: JSONRPCResponse) {
        self.send_to_editor_client(&editor_id, EditorProtocolObject::Response(response))
            .await;
    }

    async fn handle_watcher_event(&mut"""))
same("c13-response-option", (DA, """            Ok(parsed_message) => match parsed_message {
                JSONRPCFromEditor::Request { id, payload } => {
                    let result = self.react_to_message_from_editor(editor_id, &payload).await;
                    let response = match result {
                        Err(error) => {
                            error!("Error for JSON-RPC request: {:?}", error);
                            JSONRPCResponse::RequestError {
                                id: Some(id),
                                error,
                            }
                        }
                        Ok(_) => JSONRPCResponse::RequestSuccess {
                            id,
                            result: "success".into(),
                        },
                    };
                    self.send_to_editor_client(
                        &editor_id,
                        EditorProtocolObject::Response(response),
                    )
                    .await;
                }
                JSONRPCFromEditor::Notification { payload } => {
                    let _ = self.react_to_message_from_editor(editor_id, &payload).await;
                }
            },
""", """            Ok(parsed_message) => {
                let (id, payload) = match parsed_message {
                    JSONRPCFromEditor::Request { id, payload } => (Some(id), payload),
                    JSONRPCFromEditor::Notification { payload } => (None, payload),
                };
                let result = self.react_to_message_from_editor(editor_id, &payload).await;
                let Some(id) = id else {
                    return;
                };
                let response = result.map_or_else(
                    |error| {
                        error!("Error for JSON-RPC request: {:?}", error);
                        JSONRPCResponse::RequestError { id: Some(id), error }
                    },
                    |()| JSONRPCResponse::RequestSuccess {
                        id,
                        result: "success".into(),
                    },
                );
                self.send_to_editor_client(&editor_id, EditorProtocolObject::Response(response))
                    .await;
            }
"""))
same("c13-read-loop", (ED, """        while let Some(Ok(line)) = reader.next().await {
            document_handle
                .send_message(DocMessage::FromEditor(editor_id, line))
                .await;
        }
""", """        loop {
            let line = match reader.next().await {
                Some(Ok(line)) => line,
                Some(Err(_)) | None => break,
            };
            let message = DocMessage::FromEditor(editor_id, line);
            document_handle.send_message(message).await;
        }
"""))
same("c13-send-match", (DA, """        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
            debug!("Not sending to editor #{editor_id}, which was removed already");
            return;
        };

        connection.1.send(message).await.unwrap_or_else(|err| {
            error!("Failed to send message to editor: {err} Removing editor.");
            self.remove_editor_connection(editor_id);
        });
""", """        match self.editor_connections.get_mut(editor_id) {
            Some((_, writer)) => {
                if let Err(err) = writer.send(message).await {
                    error!("Failed to send message to editor: {err} Removing editor.");
                    self.remove_editor_connection(editor_id);
                }
            }
            None => debug!("Not sending to editor #{editor_id}, which was removed already"),
        }
"""))

# -- C14 ------------------------------------------------------------------------
bug("c14-echo", "C14", (DA, "self.broadcast_to_editors(Some(editor_id), &inside_message)", "self.broadcast_to_editors(Some(editor_id).filter(|_| !matches!(inside_message, ComponentMessage::Cursor { .. })), &inside_message)"))
bug("c14-exclude-none", "C14", (DA, "            if Some(editor_id) == exclude_id {", "            if Some(editor_id) == exclude_id && editor_ids_count > 2 {"), (DA, "        for editor_id in editor_ids {\n            if Some", "        let editor_ids_count = editor_ids.len();\n        for editor_id in editor_ids {\n            if Some"))
bug("c14-break", "C14", (DA, """            if Some(editor_id) == exclude_id {
                continue;""", """            if Some(editor_id) == exclude_id {
                break;"""))
bug("c14-skip-lower", "C14", (DA, "            if Some(editor_id) == exclude_id {", "            if exclude_id.is_some_and(|id| editor_id <= id) {"))
bug("c14-first-message", "C14", (DA, """        for message_to_editor in messages_to_editor {
            self.send_to_editor_client(
                &editor_id,
                EditorProtocolObject::Request(message_to_editor),
            )
            .await;
        }

        Ok(())""", """        if let Some(message_to_editor) = messages_to_editor.into_iter().next() {
            self.send_to_editor_client(
                &editor_id,
                EditorProtocolObject::Request(message_to_editor),
            )
            .await;
        }

        Ok(())"""))
bug("c14-replies-only-edit", "C14", (EC, """                let messages_to_editor = rev_deltas_for_editor
                    .into_iter()
""", """                let messages_to_editor = rev_deltas_for_editor
                    .into_iter()
                    .filter(|d| d.revision == *revision + 1)
"""))
bug("c14-cursor-open-only", "C14", (EC, """                let uri = AbsolutePath::from_parts(&self.base_dir, file_path)
                    .expect("Should be able to construct absolute URI")
                    .to_file_uri();

                vec![EditorProtocolMessageToEditor::Cursor {""", """                let uri = AbsolutePath::from_parts(&self.base_dir, file_path)
                    .expect("Should be able to construct absolute URI")
                    .to_file_uri();
                if !self.owns(file_path) {
                    return vec![];
                }

                vec![EditorProtocolMessageToEditor::Cursor {"""))
bug("c14-wrong-server", "C14", (EC, "if let Some(ot_server) = self.ot_servers.get_mut(file_path) {", "if let Some(ot_server) = self.ot_servers.values_mut().next() {"))
bug("c14-revision-zero", "C14", (EC, """                        delta: rev_text_delta_for_editor.delta,
                        revision: rev_text_delta_for_editor.revision,
""", """                        revision: rev_text_delta_for_editor.revision.min(rev_text_delta_for_editor.delta.0.len()),
                        delta: rev_text_delta_for_editor.delta,
"""))
bug("c14-cursor-needs-name", "C14", (DA, """                self.crdt_doc.store_cursor_position(
                    cursor_id,
                    name.clone(),
                    &file_path,
                    ranges.clone(),
                );
""", """                if name.is_some() {
                    self.crdt_doc.store_cursor_position(
                        cursor_id,
                        name.clone(),
                        &file_path,
                        ranges.clone(),
                    );
                }
"""))
bug("c14-edit-empty-file", "C14", (DA, """                if !self.crdt_doc.file_exists(file_path) {
                    warn!("Ignoring edit""", """                if self.current_file_content(file_path).map_or(true, |t| t.len() > 1_000_000) {
                    warn!("Ignoring edit"""))
bug("c14-no-broadcast-cursor", "C14", (DA, """        self.broadcast_to_editors(Some(editor_id), &inside_message)
            .await;
        for""", """        if !matches!(&inside_message, ComponentMessage::Cursor { ranges, .. } if ranges.is_empty()) {
            self.broadcast_to_editors(Some(editor_id), &inside_message)
                .await;
        }
        for"""))
bug("c14-not-awaited", "C14", (DA, """        self.broadcast_to_editors(Some(editor_id), &inside_message)
            .await;
        for""", """        drop(self.broadcast_to_editors(Some(editor_id), &inside_message));
        for"""))
bug("c14-refuse", "C14", (EC, """                if self.ot_servers.get_mut(&relative_path).is_none() {""", """                if self.ot_servers.get_mut(&relative_path).is_none() || delta.0.is_empty() {"""))
bug("c14-drop-message", "C14", (DA, """            for message_to_editor in messages_to_editor {
                self.send_to_editor_client(""", """            for message_to_editor in messages_to_editor {
                if exclude_id.is_none() && matches!(&message_to_editor, crate::types::EditorProtocolMessageToEditor::Edit { revision: 0, .. }) {
                    continue;
                }
                self.send_to_editor_client("""))
same("c14-filter", (DA, """        let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
        for editor_id in editor_ids {
            if Some(editor_id) == exclude_id {
                continue;
            }
""", """        let editor_ids: Vec<EditorId> = self
            .editor_connections
            .keys()
            .copied()
            .filter(|editor_id| Some(*editor_id) != exclude_id)
            .collect();
        for editor_id in editor_ids {
"""))
same("c14-if-let", (DA, """            if Some(editor_id) == exclude_id {
                continue;
            }
""", """            if let Some(exclude_id) = exclude_id {
                if editor_id == exclude_id {
                    continue;
                }
            }
"""))
same("c14-is-some-and", (DA, "            if Some(editor_id) == exclude_id {", "            if exclude_id.is_some_and(|id| id == editor_id) {"))
same("c14-collect-first", (DA, """        let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
        for editor_id in editor_ids {
            if Some(editor_id) == exclude_id {
                continue;
            }

            let messages_to_editor = self
                .editor_connections
                .get_mut(&editor_id)
                .expect("Could not get editor connection")
                .0
                .message_from_daemon(message);

            for message_to_editor in messages_to_editor {
                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
            }
        }
""", """        let mut to_send = vec![];
        for (editor_id, (connection, _)) in &mut self.editor_connections {
            if Some(*editor_id) != exclude_id {
                to_send.push((*editor_id, connection.message_from_daemon(message)));
            }
        }
        for (editor_id, messages_to_editor) in to_send {
            for message_to_editor in messages_to_editor {
                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
            }
        }
"""))
same("c14-send-all-helper", (DA, """        for message_to_editor in messages_to_editor {
            self.send_to_editor_client(
                &editor_id,
                EditorProtocolObject::Request(message_to_editor),
            )
            .await;
        }

        Ok(())
    }
""", """        self.send_all(editor_id, messages_to_editor).await;

        Ok(())
    }

    async fn send_all(
        &mut self,
        editor_id: EditorId,
        messages: Vec<crate::types::EditorProtocolMessageToEditor>,
    ) {
        for message in messages {
            self.send_to_editor_client(&editor_id, EditorProtocolObject::Request(message))
                .await;
        }
    }
"""), (DA, """            for message_to_editor in messages_to_editor {
                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
            }
""", """            self.send_all(editor_id, messages_to_editor).await;
"""))
same("c14-let-else", (EC, """                if let Some(ot_server) = self.ot_servers.get_mut(file_path) {
                    debug!("Applying incoming CRDT patch for {file_path}");
                    let rev_text_delta_for_editor = ot_server.apply_crdt_change(delta);

                    let uri = AbsolutePath::from_parts(&self.base_dir, file_path)
                        .expect("Should be able to construct absolute URI")
                        .to_file_uri();

                    vec![EditorProtocolMessageToEditor::Edit {
                        uri: uri.to_string(),
                        delta: rev_text_delta_for_editor.delta,
                        revision: rev_text_delta_for_editor.revision,
                    }]
                } else {
                    // We don't have the file open, just do nothing.
                    vec![]
                }
""", """                let Some(ot_server) = self.ot_servers.get_mut(file_path) else {
                    // We don't have the file open, just do nothing.
                    return vec![];
                };
                debug!("Applying incoming CRDT patch for {file_path}");
                let RevisionedEditorTextDelta { revision, delta } = ot_server.apply_crdt_change(delta);

                let uri = AbsolutePath::from_parts(&self.base_dir, file_path)
                    .expect("Should be able to construct absolute URI")
                    .to_file_uri();

                let mut messages = Vec::with_capacity(1);
                messages.push(EditorProtocolMessageToEditor::Edit {
                    uri: uri.to_string(),
                    delta,
                    revision,
                });
                messages
"""))
same("c14-loop-replies", (EC, """                let messages_to_editor = rev_deltas_for_editor
                    .into_iter()
                    .map(|rev_delta_for_editor| EditorProtocolMessageToEditor::Edit {
                        uri: uri.to_string(),
                        delta: rev_delta_for_editor.delta,
                        revision: rev_delta_for_editor.revision,
                    })
                    .collect();
""", """                let mut messages_to_editor = vec![];
                for rev_delta_for_editor in rev_deltas_for_editor {
                    messages_to_editor.push(EditorProtocolMessageToEditor::Edit {
                        uri: uri.to_string(),
                        delta: rev_delta_for_editor.delta,
                        revision: rev_delta_for_editor.revision,
                    });
                }
"""))


# -- C07 ------------------------------------------------------------------------
PE = D + "peer.rs"
GEN = """        let (ps, message) = response_rx
            .await
            .context("Could not read response from Document channel")?;
        self.peer_state = ps;
        if let Some(message) = message {
            self.syncer_sender
                .send(message)
                .await
                .context("Failed to send on syncer_sender channel")?;
        }
        Ok(())"""
SUB = """        let mut doc_changed_ping_rx = self.document_handle.subscribe_document_changes();

        // Kick off initial synchronization with peer.
        self.generate_sync_message().await?;
"""
bug("c07-late-subscribe", "C07", (PE, SUB, """        // Kick off initial synchronization with peer.
        self.generate_sync_message().await?;
        let mut doc_changed_ping_rx = self.document_handle.subscribe_document_changes();
"""))
bug("c07-no-start", "C07", (PE, SUB, """        let mut doc_changed_ping_rx = self.document_handle.subscribe_document_changes();
"""))
bug("c07-start-unless-host", "C07", (PE, """        self.generate_sync_message().await?;

        loop {""", """        if self.syncer_sender.capacity() > 1 {
            self.generate_sync_message().await?;
        }

        loop {"""))
bug("c07-state-kept-only-with-message", "C07", (PE, """        self.peer_state = ps;
        if let Some(message) = message {
""", """        if let Some(message) = message {
            self.peer_state = ps;
"""))
bug("c07-new-state", "C07", (PE, """                message,
                state: mem::take(&mut self.peer_state),""", """                message,
                state: SyncState::new(),"""))
bug("c07-answer-ignored", "C07", (PE, """        self.peer_state = response_rx
            .await
            .expect("Couldn't read response from Document channel");""", """        let _ = response_rx
            .await
            .expect("Couldn't read response from Document channel");"""))
bug("c07-answer-default", "C07", (PE, """        self.peer_state = response_rx
            .await
            .expect("Couldn't read response from Document channel");""", """        self.peer_state = response_rx.await.unwrap_or_default();"""))
bug("c07-try-recv", "C07", (PE, """        self.peer_state = response_rx
            .await
            .expect("Couldn't read response from Document channel");""", """        let mut response_rx = response_rx;
        if let Ok(state) = response_rx.try_recv() {
            self.peer_state = state;
        }"""))
bug("c07-try-send", "C07", (PE, """            self.syncer_sender
                .send(message)
                .await
                .context("Failed to send on syncer_sender channel")?;
        }
        Ok(())""", """            if self.syncer_sender.try_send(message).is_err() {
                warn!("Peer is slow");
            }
        }
        Ok(())"""))
bug("c07-lagged-ends", "C07", (PE, """                            debug!("Doc changed ping channel lagged (this is probably fine)");""", """                            debug!("Doc changed ping channel lagged (this is probably fine)");
                            return Ok(());"""))
bug("c07-step-in-select", "C07", (PE, """                Some(message) = self.syncer_receiver.recv() => {
                    self.receive_sync_message(message).await;
                }""", """                () = async {
                    if let Some(message) = self.syncer_receiver.recv().await {
                        let (reponse_tx, response_rx) = oneshot::channel();
                        self.document_handle
                            .send_message(DocMessage::ReceiveSyncMessage {
                                message,
                                state: mem::take(&mut self.peer_state),
                                response_tx: reponse_tx,
                            })
                            .await;
                        self.peer_state = response_rx
                            .await
                            .expect("Couldn't read response from Document channel");
                    }
                } => {}"""))
bug("c07-ping-only-empty", "C07", (PE, """                        Ok(()) => { self.generate_sync_message().await?; }""", """                        Ok(()) => {
                            if doc_changed_ping_rx.is_empty() && self.syncer_receiver.is_empty() {
                                self.generate_sync_message().await?;
                            }
                        }"""))
bug("c07-message-dropped", "C07", (PE, """                Some(message) = self.syncer_receiver.recv() => {
                    self.receive_sync_message(message).await;
                }""", """                Some(message) = self.syncer_receiver.recv() => {
                    if message.heads != self.peer_state.shared_heads {
                        self.receive_sync_message(message).await;
                    }
                }"""))
bug("c07-ping-if-patches", "C07", (DA, """        let _ = self.doc_changed_ping_tx.send(());
        patches
    }""", """        if !patches.is_empty() {
            let _ = self.doc_changed_ping_tx.send(());
        }
        patches
    }"""))
bug("c07-answer-fresh-state", "C07", (DA, """                if response_tx.send(peer_state).is_err() {""", """                if file_deltas.len() > 1000 {
                    peer_state = SyncState::new();
                }
                if response_tx.send(peer_state).is_err() {"""))
bug("c07-answer-none", "C07", (DA, """                if response_tx.send((peer_state, message)).is_err() {""", """                let message = message.filter(|m| !m.changes.is_empty());
                if response_tx.send((peer_state, message)).is_err() {"""))
bug("c07-answer-skipped", "C07", (DA, """                let patch_effects = PatchEffect::from_crdt_patches(patches);

                let mut""", """                if patches.is_empty() && self.editor_connections.is_empty() {
                    return;
                }

                let patch_effects = PatchEffect::from_crdt_patches(patches);

                let mut"""))
bug("c07-generate-clone", "C07", (D + "document.rs", """        self.doc.sync().generate_sync_message(peer_state)""", """        self.doc.sync().generate_sync_message(&mut peer_state.clone())"""))
same("c07-inline-receive", (PE, """                    self.receive_sync_message(message).await;
                }""", """                    let (tx, rx) = oneshot::channel();
                    let state = mem::replace(&mut self.peer_state, SyncState::new());
                    self.document_handle
                        .send_message(DocMessage::ReceiveSyncMessage {
                            message,
                            state,
                            response_tx: tx,
                        })
                        .await;
                    match rx.await {
                        Ok(state) => self.peer_state = state,
                        Err(_) => panic!("Couldn't read response from Document channel"),
                    }
                }"""), (PE, """    async fn receive_sync_message(&mut self, message: AutomergeSyncMessage) {
        let (reponse_tx, response_rx) = oneshot::channel();
        self.document_handle
            .send_message(DocMessage::ReceiveSyncMessage {
                message,
                state: mem::take(&mut self.peer_state),
                response_tx: reponse_tx,
            })
            .await;
        self.peer_state = response_rx
            .await
            .expect("Couldn't read response from Document channel");
    }
""", ""))
same("c07-clone-state", (PE, """                message,
                state: mem::take(&mut self.peer_state),""", """                message,
                state: self.peer_state.clone(),"""))
same("c07-generate-match", (PE, GEN, """        let (ps, message) = match response_rx.await {
            Ok(x) => x,
            Err(e) => {
                return Err(e).context("Could not read response from Document channel");
            }
        };
        self.peer_state = ps;
        match message {
            None => Ok(()),
            Some(message) => self
                .syncer_sender
                .send(message)
                .await
                .context("Failed to send on syncer_sender channel"),
        }"""))
same("c07-assign-after-send", (PE, GEN, """        let (ps, message) = response_rx
            .await
            .context("Could not read response from Document channel")?;
        let result = self.pass_on(message).await;
        self.peer_state = ps;
        result
    }

    async fn pass_on(&mut self, message: Option<AutomergeSyncMessage>) -> Result<()> {
        if let Some(message) = message {
            self.syncer_sender
                .send(message)
                .await
                .context("Failed to send on syncer_sender channel")?;
        }
        Ok(())"""))
same("c07-lagged-generates", (PE, """                        Ok(()) => { self.generate_sync_message().await?; }
                        Err(broadcast::error::RecvError::Closed) => {
                            panic!("Doc changed channel has been closed");
                        }
                        Err(broadcast::error::RecvError::Lagged(_)) => {
                            // This is fine, the messages in this channel are just pings.
                            // It's fine if we miss some.
                            debug!("Doc changed ping channel lagged (this is probably fine)");
                        }""", """                        Err(broadcast::error::RecvError::Closed) => {
                            panic!("Doc changed channel has been closed");
                        }
                        Ok(()) | Err(broadcast::error::RecvError::Lagged(_)) => {
                            self.generate_sync_message().await?;
                        }"""))
same("c07-event-enum", (PE, """                Some(message) = self.syncer_receiver.recv() => {
                    self.receive_sync_message(message).await;
                }""", """                received = self.syncer_receiver.recv() => {
                    let Some(message) = received else { return Ok(()) };
                    self.receive_sync_message(message).await;
                }"""))
same("c07-document-helper", (DA, """                let message = self.crdt_doc.generate_sync_message(&mut peer_state);

                if response_tx.send((peer_state, message)).is_err() {
                    warn!("Failed to send peer state and sync message in response to GenerateSyncMessage.");
                }""", """                let message = self.crdt_doc.generate_sync_message(&mut peer_state);
                let response = (peer_state, message);
                response_tx.send(response).unwrap_or_else(|_| {
                    warn!("Failed to send peer state and sync message in response to GenerateSyncMessage.");
                });"""))


# -- C08 ------------------------------------------------------------------------
WR = """                            let message = message.encode();
                            let message_len = u32::try_from(message.len());
                            stream
                                .write_all(&message_len?.to_be_bytes())
                                .await?;
                            stream
                                .write_all(&message)
                                .await?;
                            }"""
LEN = """                    message_len_read += bytes_read;
                    if message_len_read < message_len_buf.len() {
                        continue;
                    }
                    message_len_read = 0;
"""
RD = """                    let message_len = u32::from_be_bytes(message_len_buf);
                    let mut message_buf = vec![0; message_len as usize];
                    stream.read_exact(&mut message_buf).await?;

                    let message =
                        AutomergeSyncMessage::decode(&message_buf)?;
                    from_peer_tx.send(message).await?;"""
bug("c08-read-exact", "C08", (PE, """                bytes_read = stream.read(&mut message_len_buf[message_len_read..]) => {
                    let bytes_read = bytes_read?;
                    if bytes_read == 0 {
                        bail!("Stream has been closed");
                    }
""" + LEN, """                result = stream.read_exact(&mut message_len_buf) => {
                    result?;
"""), (PE, "        let mut message_len_read = 0;\n", ""))
bug("c08-read-body-partly", "C08", (PE, "stream.read_exact(&mut message_buf).await?;", "let n = stream.read(&mut message_buf).await?;\n                    message_buf.truncate(n);"))
bug("c08-read-body-error", "C08", (PE, "stream.read_exact(&mut message_buf).await?;", "let _ = stream.read_exact(&mut message_buf).await;"))
bug("c08-no-reset", "C08", (PE, "                    message_len_read = 0;\n", ""))
bug("c08-reset-on-write", "C08", (PE, "                        Some(message) => {\n                            let message = message.encode();", "                        Some(message) => {\n                            message_len_read = 0;\n                            let message = message.encode();"))
bug("c08-no-count", "C08", (PE, "message_len_read += bytes_read;", "message_len_read = bytes_read;"))
bug("c08-no-wait", "C08", (PE, "                    if message_len_read < message_len_buf.len() {\n                        continue;", "                    if message_len_read == 0 {\n                        continue;"))
bug("c08-one-short", "C08", (PE, "                    if message_len_read < message_len_buf.len() {", "                    if message_len_read + 1 < message_len_buf.len() {"))
bug("c08-buffer-in-loop", "C08", (PE, "        let mut message_len_buf = [0; 4];\n        let mut message_len_read = 0;\n\n        loop {\n", "        let mut message_len_read = 0;\n\n        loop {\n            let mut message_len_buf = [0; 4];\n"))
bug("c08-end-of-stream", "C08", (PE, """                    if bytes_read == 0 {
                        bail!("Stream has been closed");
                    }
""", """                    if bytes_read == 0 {
                        continue;
                    }
"""))
bug("c08-write-partly", "C08", (PE, """                            stream
                                .write_all(&message)
                                .await?;""", """                            let _written = stream
                                .write(&message)
                                .await?;"""))
bug("c08-write-order", "C08", (PE, WR, """                            let message = message.encode();
                            let message_len = u32::try_from(message.len())?;
                            stream.write_all(&message).await?;
                            stream.write_all(&message_len.to_be_bytes()).await?;
                            }"""))
bug("c08-little-endian", "C08", (PE, "u32::from_be_bytes(message_len_buf)", "u32::from_le_bytes(message_len_buf)"))
bug("c08-length-u16", "C08", (PE, "                            let message_len = u32::try_from(message.len());", "                            let message_len = anyhow::Ok(u32::from(message.len() as u16));"))
bug("c08-write-errors", "C08", (PE, """                            stream
                                .write_all(&message)
                                .await?;""", """                            if stream.write_all(&message).await.is_err() {
                                warn!("Failed to write to peer");
                            }"""))
bug("c08-empty-skipped", "C08", (PE, WR, """                            let message = message.encode();
                            if message.len() > 1 {
                                let message_len = u32::try_from(message.len());
                                stream
                                    .write_all(&message_len?.to_be_bytes())
                                    .await?;
                                stream
                                    .write_all(&message)
                                    .await?;
                            }
                            }"""))
bug("c08-message-dropped", "C08", (PE, "                    from_peer_tx.send(message).await?;", "                    if from_peer_tx.try_send(message).is_err() {\n                        warn!(\"Too many messages\");\n                    }"))
bug("c08-body-in-select", "C08", (PE, "                    stream.read_exact(&mut message_buf).await?;\n", """                    tokio::select! {
                        result = stream.read_exact(&mut message_buf) => { result?; }
                        () = tokio::time::sleep(std::time::Duration::from_secs(1)) => { continue; }
                    }
"""))
bug("c08-long-messages", "C08", (PE, "                    let mut message_buf = vec![0; message_len as usize];", "                    let mut message_buf = vec![0; (message_len as usize).min(1 << 24)];"))
same("c08-write-helper", (PE, WR, """                            Self::write_message(&mut stream, message).await?;
                            }"""), (PE, """    /// Core low-level syncing protocol.
""", """    async fn write_message(stream: &mut Stream, message: AutomergeSyncMessage) -> Result<()> {
        let bytes = message.encode();
        let length: u32 = bytes.len().try_into()?;
        let prefix = length.to_be_bytes();
        stream.write_all(&prefix).await?;
        stream.write_all(&bytes).await?;
        Ok(())
    }

    /// Core low-level syncing protocol.
"""))
same("c08-read-helper", (PE, RD, """                    let message = Self::read_body(&mut stream, message_len_buf).await?;
                    from_peer_tx.send(message).await?;"""), (PE, """    /// Core low-level syncing protocol.
""", """    async fn read_body(stream: &mut Stream, prefix: [u8; 4]) -> Result<AutomergeSyncMessage> {
        let length = usize::try_from(u32::from_be_bytes(prefix))?;
        let mut buf = vec![0u8; length];
        stream.read_exact(buf.as_mut_slice()).await?;
        Ok(AutomergeSyncMessage::decode(&buf)?)
    }

    /// Core low-level syncing protocol.
"""))
same("c08-nested-if", (PE, LEN + "\n" + RD, """                    message_len_read += bytes_read;
                    if message_len_read == message_len_buf.len() {
                        message_len_read = 0;
                        let message_len = u32::from_be_bytes(message_len_buf);
                        let mut message_buf = vec![0; message_len as usize];
                        stream.read_exact(&mut message_buf).await?;

                        let message =
                            AutomergeSyncMessage::decode(&message_buf)?;
                        from_peer_tx.send(message).await?;
                    }"""))
same("c08-reset-after", (PE, "                    message_len_read = 0;\n", ""), (PE, "                    from_peer_tx.send(message).await?;", "                    from_peer_tx.send(message).await?;\n                    message_len_read = 0;"))
same("c08-match-read", (PE, """                    let bytes_read = bytes_read?;
                    if bytes_read == 0 {
                        bail!("Stream has been closed");
                    }
                    message_len_read += bytes_read;""", """                    match bytes_read {
                        Err(e) => return Err(e.into()),
                        Ok(0) => bail!("Stream has been closed"),
                        Ok(n) => message_len_read += n,
                    }"""))
same("c08-none-ends", (PE, """                            // TODO: What should we do?
                            error!("None on to_peer_rx");""", """                            bail!("None on to_peer_rx");"""))


# -- C10 ------------------------------------------------------------------------
MODE = """            let allowed_permissions = 0o100600;
            if current_permissions != allowed_permissions {
                panic!("""
bug("c10-owner-bits", "C10", (PE, "if current_permissions != allowed_permissions {", "if current_permissions & allowed_permissions != allowed_permissions {"))
bug("c10-only-world", "C10", (PE, "if current_permissions != allowed_permissions {", "if current_permissions & 0o007 != 0 {"))
bug("c10-only-read", "C10", (PE, "if current_permissions != allowed_permissions {", "if current_permissions & 0o044 != 0 {"))
bug("c10-warn", "C10", (PE, """                panic!("For security reasons, please make sure to set the key file to user-readable only (set the permissions to 600).");""", """                warn!("For security reasons, please make sure to set the key file to user-readable only (set the permissions to 600).");"""))
bug("c10-directory", "C10", (PE, "            let current_permissions = fs::metadata(&keyfile)", "            let current_permissions = fs::metadata(self.base_dir.join(\".ethersync\"))"))
bug("c10-metadata-of-other", "C10", (PE, "            let current_permissions = fs::metadata(&keyfile)", "            let current_permissions = fs::metadata(keyfile.with_extension(\"pub\"))"))
bug("c10-0640", "C10", (PE, ".mode(0o600)", ".mode(0o640)"))
bug("c10-no-mode", "C10", (PE, "                .mode(0o600)\n", ""))
bug("c10-chmod-later", "C10", (PE, "                .mode(0o600)\n", ""), (PE, """            file.write_all(&bytes).expect("Failed to write to key file");
""", """            file.write_all(&bytes).expect("Failed to write to key file");
            file.set_permissions(fs::Permissions::from_mode(0o600))
                .expect("Failed to restrict key file");
"""))
bug("c10-fs-write", "C10", (PE, """            let mut file = OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .mode(0o600)
                .open(keyfile)
                .expect("Should have been able to create key file that did not exist before");
            file.write_all(&bytes).expect("Failed to write to key file");
""", """            fs::write(&keyfile, &bytes).expect("Failed to write to key file");
            fs::set_permissions(&keyfile, fs::Permissions::from_mode(0o600))
                .expect("Failed to restrict key file");
"""))
bug("c10-regenerate", "C10", (PE, "        if keyfile.exists() {\n", "        if keyfile.exists() && fs::metadata(&keyfile).is_ok_and(|m| m.len() > 0) {\n"))
bug("c10-chmod-wide", "C10", (PE, """            file.write_all(&bytes).expect("Failed to write to key file");
""", """            file.write_all(&bytes).expect("Failed to write to key file");
            let _ = file.set_permissions(fs::Permissions::from_mode(0o644));
"""))
same("c10-mask", (PE, "if current_permissions != allowed_permissions {", "if current_permissions & 0o777 != allowed_permissions & 0o777 {"))
same("c10-mask2", (PE, "if current_permissions != allowed_permissions {", "if current_permissions & !0o100600 != 0 {"))
same("c10-helper", (PE, """            let current_permissions = fs::metadata(&keyfile)
                .expect("Expected to have access to metadata of the keyfile")
                .permissions()
                .mode();
            let allowed_permissions = 0o100600;
            if current_permissions != allowed_permissions {
                panic!("For security reasons, please make sure to set the key file to user-readable only (set the permissions to 600).");
            }
""", """            Self::check_permissions(&keyfile);
"""), (PE, """    /// Returns an existing keypair, or generates a new one.
""", """    fn check_permissions(keyfile: &PathBuf) {
        let meta = match fs::metadata(keyfile) {
            Ok(meta) => meta,
            Err(e) => panic!("Expected to have access to metadata of the keyfile: {e}"),
        };
        assert!(
            meta.permissions().mode() == 0o100600,
            "For security reasons, please make sure to set the key file to user-readable only (set the permissions to 600)."
        );
    }

    /// Returns an existing keypair, or generates a new one.
"""))
same("c10-options-separate", (PE, """            let mut file = OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .mode(0o600)
                .open(keyfile)
""", """            let mut options = OpenOptions::new();
            options.write(true).create_new(true);
            options.mode(0o600);
            let mut file = options
                .open(keyfile)
"""))
same("c10-split", (PE, """            info!("Re-using existing keypair");
            let bytes = std::fs::read(keyfile).expect("Failed to read key file");
            Keypair::from_protobuf_encoding(&bytes).expect("Failed to deserialize key file")
""", """            info!("Re-using existing keypair");
            Self::load(&keyfile)
"""), (PE, """    /// Returns an existing keypair, or generates a new one.
""", """    fn load(keyfile: &PathBuf) -> Keypair {
        let bytes = std::fs::read(keyfile).expect("Failed to read key file");
        Keypair::from_protobuf_encoding(&bytes).expect("Failed to deserialize key file")
    }

    /// Returns an existing keypair, or generates a new one.
"""))

# -- C11 ------------------------------------------------------------------------
CHK = """    if let Err(description) = is_user_readable_only(&socket_path) {
        panic!("{}", description);
    }
"""
EX = """    if sandbox::exists(Path::new("/"), Path::new(&socket_path))
        .expect("Failed to check existence of path")
    {
        sandbox::remove_file(Path::new("/"), &socket_path).expect("Could not remove socket");
    }
"""
bug("c11-no-check", "C11", (ED, CHK, ""))
bug("c11-warn", "C11", (ED, CHK, """    if let Err(description) = is_user_readable_only(&socket_path) {
        tracing::warn!("{}", description);
    }
"""))
bug("c11-check-late", "C11", (ED, CHK, ""), (ED, EX, EX + "\n" + CHK))
bug("c11-check-after-bind", "C11", (ED, CHK, ""), (ED, "    let listener = UnixListener::bind(socket_path)?;\n", """    let listener = UnixListener::bind(socket_path)?;
    is_user_readable_only(socket_path).map_err(io::Error::other)?;
"""))
bug("c11-group", "C11", (ED, "    let allowed_permissions = 0o77700u32;", "    let allowed_permissions = 0o77770u32;"))
bug("c11-execute", "C11", (ED, "    let allowed_permissions = 0o77700u32;", "    let allowed_permissions = 0o77711u32;"))
bug("c11-and", "C11", (ED, "    if current_permissions | allowed_permissions != allowed_permissions {", "    if current_permissions & allowed_permissions == 0 {"))
bug("c11-grandparent", "C11", (ED, """    let parent_dir = socket_path
        .parent()
""", """    let parent_dir = socket_path
        .parent()
        .and_then(Path::parent)
"""))
bug("c11-only-if-exists", "C11", (ED, CHK, """    if socket_path.exists() {
        if let Err(description) = is_user_readable_only(&socket_path) {
            panic!("{}", description);
        }
    }
"""))
bug("c11-not-root-user", "C11", (ED, "    if current_permissions | allowed_permissions != allowed_permissions {", "    if current_permissions | allowed_permissions != allowed_permissions && std::env::var(\"USER\").is_ok() {"))
bug("c11-name-parent", "C11", (ED, """        bail!("The socket name must be a plain filename");""", """        info!("The socket name must be a plain filename");"""))
bug("c11-name-many", "C11", (ED, "    if socket_name.components().count() != 1 {", "    if socket_name.components().count() < 1 {"))
bug("c11-name-unchecked", "C11", (ED, """    if let Err(description) = is_valid_socket_name(&socket_name) {
        panic!("{}", description);
    }
    socket_dir.join(socket_name)""", """    if socket_dir.is_absolute() {
        if let Err(description) = is_valid_socket_name(&socket_name) {
            panic!("{}", description);
        }
    }
    socket_dir.join(socket_name)"""))
bug("c11-name-all", "C11", (ED, "    if socket_name.components().count() != 1 {", "    if !socket_name.components().all(|c| matches!(c, std::path::Component::Normal(_))) || socket_name.components().next().is_none() {"))
bug("c11-name-two", "C11", (ED, """    if socket_name.components().count() != 1 {
        bail!("The socket name must be a single path component");
    }
""", """    for c in socket_name.components() {
        if !matches!(c, std::path::Component::Normal(_)) {
            bail!("The socket name must be a single path component");
        }
    }
"""))
same("c11-mask", (ED, """    let allowed_permissions = 0o77700u32;
    if current_permissions | allowed_permissions != allowed_permissions {""", """    if current_permissions & 0o077 != 0 {"""))
same("c11-bool", (ED, CHK, """    let checked = is_user_readable_only(&socket_path);
    assert!(checked.is_ok(), "The socket directory is not private");
"""))
same("c11-check-in-loop-fn", (ED, CHK, ""), (ED, EX, ""), (ED, "    let listener = UnixListener::bind(socket_path)?;\n", """    is_user_readable_only(socket_path).map_err(io::Error::other)?;
    if sandbox::exists(Path::new("/"), socket_path).expect("Failed to check existence of path") {
        sandbox::remove_file(Path::new("/"), socket_path).expect("Could not remove socket");
    }
    let listener = UnixListener::bind(socket_path)?;
"""))
same("c11-name-match", (ED, """    if socket_name.components().count() != 1 {
        bail!("The socket name must be a single path component");
    }
    if let std::path::Component::Normal(_) = socket_name
        .components()
        .next()
        .expect("The component count of socket_name was previously checked to be non-empty")
    {
        // All good :)
    } else {
        bail!("The socket name must be a plain filename");
    }
    Ok(())""", """    let mut components = socket_name.components();
    match (components.next(), components.next()) {
        (Some(std::path::Component::Normal(_)), None) => Ok(()),
        (_, None) => bail!("The socket name must be a plain filename"),
        _ => bail!("The socket name must be a single path component"),
    }"""))
same("c11-name-first", (ED, """    let socket_dir = std::env::var("XDG_RUNTIME_DIR").unwrap_or_else(|_| get_fallback_socket_dir());
    let socket_dir = Path::new(&socket_dir);
    if let Err(description) = is_valid_socket_name(&socket_name) {
        panic!("{}", description);
    }
    socket_dir.join(socket_name)""", """    if let Err(description) = is_valid_socket_name(socket_name) {
        panic!("{}", description);
    }
    let mut socket_path = match std::env::var("XDG_RUNTIME_DIR") {
        Ok(dir) => PathBuf::from(dir),
        Err(_) => PathBuf::from(get_fallback_socket_dir()),
    };
    socket_path.push(socket_name);
    socket_path"""))


# -- C19 ------------------------------------------------------------------------
OT = D + "ot.rs" if D.endswith("/") else D + "/ot.rs"
bug("c19-daemon-twice", "C19", (OT, "        self.daemon_revision += 1;\n", "        self.daemon_revision += delta.0.len();\n"))
bug("c19-daemon-nonempty", "C19", (OT, "        self.daemon_revision += 1;\n", "        if !delta.0.is_empty() {\n            self.daemon_revision += 1;\n        }\n"))
bug("c19-editor-late", "C19", (OT, "        self.editor_revision += 1;\n\n", ""), (OT, "        let deltas_for_editor = self.deltas_for_editor();\n", "        let deltas_for_editor = self.deltas_for_editor();\n        self.editor_revision += 1;\n"))
bug("c19-editor-nonempty", "C19", (OT, "        self.editor_revision += 1;\n\n", "        if !rev_editor_delta.delta.0.is_empty() {\n            self.editor_revision += 1;\n        }\n\n"))
bug("c19-stamp-daemon", "C19", (OT, "            revision: self.editor_revision,\n", "            revision: self.daemon_revision,\n"))
bug("c19-stamp-first", "C19", (OT, """            to_editor.push(RevisionedEditorTextDelta::new(
                self.editor_revision,
""", """            to_editor.push(RevisionedEditorTextDelta::new(
                self.editor_revision + to_editor.len(),
"""))
bug("c19-drop-queue", "C19", (OT, "        self.editor_queue.push(delta.clone().into());\n", "        if !self.editor_queue.is_empty() || self.editor_revision > 0 {\n            self.editor_queue.push(delta.clone().into());\n        }\n"))
bug("c19-drain-all-but-one", "C19", (OT, "self.editor_queue.drain(..seen_operations);", "self.editor_queue.drain(..seen_operations.saturating_sub(1));"))
bug("c19-drain-unconfirmed", "C19", (OT, "self.editor_queue.drain(..seen_operations);", "self.editor_queue.drain(..daemon_operations_to_transform);"))
bug("c19-drain-end", "C19", (OT, "self.editor_queue.drain(..seen_operations);", "self.editor_queue.drain(daemon_operations_to_transform..);"))
bug("c19-not-sent", "C19", (OT, "        let deltas_for_editor = self.deltas_for_editor();\n", "        let deltas_for_editor = if seen_operations > 0 { vec![] } else { self.deltas_for_editor() };\n"))
bug("c19-sent-skip", "C19", (OT, "        for editor_op in &self.editor_queue {\n", "        for editor_op in &self.editor_queue {\n            if editor_op.is_noop() {\n                continue;\n            }\n"))
bug("c19-wrong-revision", "C19", (EC, "                    revision: *revision,\n", "                    revision: revision.saturating_sub(1),\n"))
bug("c19-only-first", "C19", (EC, "                    .into_iter()\n                    .map(|rev_delta_for_editor|", "                    .into_iter()\n                    .take(1)\n                    .map(|rev_delta_for_editor|"))
bug("c19-own-revision", "C19", (EC, "                        revision: rev_delta_for_editor.revision,\n", "                        revision: *revision,\n"))
bug("c19-keep-server", "C19", (EC, "                self.ot_servers.insert(relative_path.clone(), ot_server);\n", "                self.ot_servers.entry(relative_path.clone()).or_insert(ot_server);\n"))
bug("c19-empty-change", "C19", (EC, "                    vec![EditorProtocolMessageToEditor::Edit {\n                        uri: uri.to_string(),\n                        delta: rev_text_delta_for_editor.delta,", "                    if rev_text_delta_for_editor.delta.0.is_empty() {\n                        return vec![];\n                    }\n                    vec![EditorProtocolMessageToEditor::Edit {\n                        uri: uri.to_string(),\n                        delta: rev_text_delta_for_editor.delta,"))
same("c19-order", (OT, "        self.operations.push(delta.clone().into());\n        self.editor_queue.push(delta.clone().into());\n        self.daemon_revision += 1;\n", "        self.daemon_revision += 1;\n        let op_seq: OperationSeq = delta.clone().into();\n        self.editor_queue.push(op_seq.clone());\n        self.operations.push(op_seq);\n"))
same("c19-helper", (OT, "        self.operations.push(delta.clone().into());\n        self.editor_queue.push(delta.clone().into());\n        self.daemon_revision += 1;\n", "        self.record(delta.clone().into());\n"), (OT, "    fn deltas_for_editor(&self)", "    fn record(&mut self, op_seq: OperationSeq) {\n        self.daemon_revision += 1;\n        self.operations.push(op_seq.clone());\n        self.editor_queue.push(op_seq);\n    }\n\n    fn deltas_for_editor(&self)"))
same("c19-seen", (OT, "        let seen_operations = self.editor_queue.len() - daemon_operations_to_transform;", "        let seen_operations = self.editor_queue.len() + daemon_revision - self.daemon_revision;"))
same("c19-map", (OT, """        let mut to_editor = vec![];
        let mut document = self.last_confirmed_editor_content.clone();
        for editor_op in &self.editor_queue {
            let delta: TextDelta = editor_op.clone().into();
            let ed_delta = EditorTextDelta::from_delta(delta, &document);
            to_editor.push(RevisionedEditorTextDelta::new(
                self.editor_revision,
                ed_delta,
            ));

            //debug!("Applying unconfirmed operation from editor queue {:#?} to last confirmed editor content {:?}", &editor_op, &document);
            document = Self::force_apply(&document, editor_op.clone());
        }
        to_editor
""", """        let mut document = self.last_confirmed_editor_content.clone();
        self.editor_queue
            .iter()
            .map(|editor_op| {
                let delta = EditorTextDelta::from_delta(editor_op.clone().into(), &document);
                document = Self::force_apply(&document, editor_op.clone());
                RevisionedEditorTextDelta {
                    revision: self.editor_revision,
                    delta,
                }
            })
            .collect()
"""))
same("c19-messages-loop", (EC, """                let messages_to_editor = rev_deltas_for_editor
                    .into_iter()
                    .map(|rev_delta_for_editor| EditorProtocolMessageToEditor::Edit {
                        uri: uri.to_string(),
                        delta: rev_delta_for_editor.delta,
                        revision: rev_delta_for_editor.revision,
                    })
                    .collect();
""", """                let mut messages_to_editor = Vec::with_capacity(rev_deltas_for_editor.len());
                for RevisionedEditorTextDelta { revision, delta } in rev_deltas_for_editor {
                    messages_to_editor.push(EditorProtocolMessageToEditor::Edit {
                        uri: uri.to_string(),
                        revision,
                        delta,
                    });
                }
"""))
same("c19-match-server", (EC, """                if self.ot_servers.get_mut(&relative_path).is_none() {
                    return Err(EditorProtocolMessageError {""", """                let Some(ot_server) = self.ot_servers.get_mut(&relative_path) else {
                    return Err(EditorProtocolMessageError {"""), (EC, """                    });
                }

                let ot_server = self
                    .ot_servers
                    .get_mut(&relative_path)
                    .expect("Could not find OT server.");
""", """                    });
                };
"""))
same("c19-drain-loop", (OT, """        let confirmed_queue = self.editor_queue.drain(..seen_operations);
        for confirmed_editor_op in confirmed_queue {
""", """        let confirmed_queue: Vec<OperationSeq> = self.editor_queue.drain(..seen_operations).collect();
        for confirmed_editor_op in &confirmed_queue {
"""))


# -- C41 ------------------------------------------------------------------------
SEEN = """        self.last_confirmed_editor_content =
            Self::force_apply(&self.last_confirmed_editor_content, op_seq.clone());
"""
bug("c41-current-base", "C41", (OT, """            rev_editor_delta,
            &self.last_confirmed_editor_content,
""", """            rev_editor_delta,
            &self.current_content,
"""))
bug("c41-untransformed-text", "C41", (OT, """        self.current_content = Self::force_apply(&self.current_content, op_seq.clone());

        let deltas""", """        self.current_content = Self::force_apply(&self.last_confirmed_editor_content, op_seq.clone());

        let deltas"""))
bug("c41-seen-transformed", "C41", (OT, SEEN, ""), (OT, "        self.operations.push(op_seq.clone());\n        self.current_content", SEEN + "        self.operations.push(op_seq.clone());\n        self.current_content"))
bug("c41-document-fixed", "C41", (OT, "            document = Self::force_apply(&document, editor_op.clone());\n", ""))
bug("c41-document-current", "C41", (OT, "        let mut document = self.last_confirmed_editor_content.clone();\n", "        let mut document = self.current_content.clone();\n"))
bug("c41-document-before", "C41", (OT, """            let ed_delta = EditorTextDelta::from_delta(delta, &document);
            to_editor""", """            document = Self::force_apply(&document, editor_op.clone());
            let ed_delta = EditorTextDelta::from_delta(delta, &document);
            to_editor"""), (OT, "\n            document = Self::force_apply(&document, editor_op.clone());\n        }\n        to_editor", "\n        }\n        to_editor"))
bug("c41-delta-after", "C41", (OT, """        let editor_delta = EditorTextDelta::from_delta(delta.clone(), &self.current_content);
        self.current_content = Self::force_apply(&self.current_content, delta.clone().into());
""", """        self.current_content = Self::force_apply(&self.current_content, delta.clone().into());
        let editor_delta = EditorTextDelta::from_delta(delta.clone(), &self.current_content);
"""))
bug("c41-confirmed-skip", "C41", (OT, """        for confirmed_editor_op in confirmed_queue {
            debug!(""", """        for confirmed_editor_op in confirmed_queue {
            if confirmed_editor_op.base_len() > self.last_confirmed_editor_content.len() {
                continue;
            }
            debug!("""))
bug("c41-confirmed-reversed", "C41", (OT, "        for confirmed_editor_op in confirmed_queue {\n", "        for confirmed_editor_op in confirmed_queue.rev() {\n"))
bug("c41-swapped", "C41", (OT, "        let (my_prime, their_prime) = my_op_seq", "        let (their_prime, my_prime) = my_op_seq"))
bug("c41-theirs-kept", "C41", (OT, "        their_op_seq = their_prime;\n", "        if !my_op_seq.is_noop() && their_op_seq.base_len() < their_prime.base_len() {\n            their_op_seq = their_prime;\n        }\n"))
bug("c41-mine-kept", "C41", (OT, "        transformed_my_operations.push(my_prime);\n", "        transformed_my_operations.push(if my_prime.is_noop() { my_op_seq } else { my_prime });\n"))
bug("c41-noop-dropped", "C41", (OT, "        transformed_my_operations.push(my_prime);\n", "        if !my_prime.is_noop() {\n            transformed_my_operations.push(my_prime);\n        }\n"))
bug("c41-pad-target", "C41", (OT, "            let diff = their_op_seq.base_len() - my_op_seq.base_len();", "            let diff = their_op_seq.target_len() - my_op_seq.base_len();"))
bug("c41-pad-wrong", "C41", (OT, "            their_op_seq.retain(diff as u64);", "            my_op_seq.retain(diff as u64);"))
bug("c41-bytes", "C41", (OT, "        let doc_chars = document.chars().count();", "        let doc_chars = document.len();"))
bug("c41-apply-target", "C41", (OT, "        if op_seq.base_len() < doc_chars {\n            op_seq.retain((doc_chars - op_seq.base_len()) as u64);", "        if op_seq.target_len() < doc_chars {\n            op_seq.retain((doc_chars - op_seq.target_len()) as u64);"))
bug("c41-passed-raw", "C41", (OT, """        (op_seq, self.editor_queue) = transform_through_operations(op_seq, &self.editor_queue);
        self.operations.push(op_seq.clone());
        self.current_content = Self::force_apply(&self.current_content, op_seq.clone());
""", """        let (transformed, queue) = transform_through_operations(op_seq.clone(), &self.editor_queue);
        if seen_operations == 0 {
            op_seq = transformed;
        }
        self.editor_queue = queue;
        self.operations.push(op_seq.clone());
        self.current_content = Self::force_apply(&self.current_content, op_seq.clone());
"""))
bug("c41-start-empty", "C41", (OT, "            last_confirmed_editor_content: initial_content.clone(),\n", "            last_confirmed_editor_content: initial_content.trim_end_matches('\\n').to_string(),\n"))
same("c41-swap-roles", (OT, "        let (my_prime, their_prime) = my_op_seq.transform(&their_op_seq)", "        let (their_prime, my_prime) = their_op_seq.transform(&my_op_seq)"))
same("c41-max", (OT, """        if my_op_seq.base_len() < their_op_seq.base_len() {
            let diff = their_op_seq.base_len() - my_op_seq.base_len();
            my_op_seq.retain(diff as u64);
        } else {
            let diff = my_op_seq.base_len() - their_op_seq.base_len();
            their_op_seq.retain(diff as u64);
        }
""", """        let my_len = my_op_seq.base_len();
        let their_len = their_op_seq.base_len();
        my_op_seq.retain(their_len.saturating_sub(my_len) as u64);
        their_op_seq.retain(my_len.saturating_sub(their_len) as u64);
"""))
same("c41-helper", (OT, """        if my_op_seq.base_len() < their_op_seq.base_len() {
            let diff = their_op_seq.base_len() - my_op_seq.base_len();
            my_op_seq.retain(diff as u64);
        } else {
            let diff = my_op_seq.base_len() - their_op_seq.base_len();
            their_op_seq.retain(diff as u64);
        }
""", """        pad(&mut my_op_seq, their_op_seq.base_len());
        pad(&mut their_op_seq, my_op_seq.base_len());
"""), (OT, "fn transform_through_operations(\n", """fn pad(op_seq: &mut OperationSeq, len: usize) {
    if op_seq.base_len() < len {
        op_seq.retain((len - op_seq.base_len()) as u64);
    }
}

fn transform_through_operations(
"""))
same("c41-into", (OT, """        for my_op_seq in my_operations {
        let mut my_op_seq = my_op_seq.clone();
""".replace("        for", "    for"), """    for op_seq in my_operations.iter() {
        let mut my_op_seq = op_seq.clone();
"""))
same("c41-apply-match", (OT, """        op_seq.apply(document).unwrap_or_else(|_| {
            panic!("Could not apply operation {op_seq:?} to string with length {doc_chars} ('{document:?}')")
        })
""", """        let missing = doc_chars.saturating_sub(op_seq.base_len());
        if missing > 0 {
            op_seq.retain(missing as u64);
        }
        match op_seq.apply(document) {
            Ok(text) => text,
            Err(_) => panic!("Could not apply operation {op_seq:?} to string with length {doc_chars} ('{document:?}')"),
        }
"""), (OT, """        if op_seq.base_len() < doc_chars {
            op_seq.retain((doc_chars - op_seq.base_len()) as u64);
        }
""", ""))
same("c41-fields", (OT, """        (op_seq, self.editor_queue) = transform_through_operations(op_seq, &self.editor_queue);
""", """        let (transformed, queue) = transform_through_operations(op_seq, &self.editor_queue);
        self.editor_queue = queue;
        op_seq = transformed;
"""))

# -- C31, C42: conversions --------------------------------------------------------
bug("c31-delete-does-not-advance", "C31", (TY, """                        replacement: String::new(),
                    });
                    position += n;""", """                        replacement: String::new(),
                    });"""))
bug("c31-insert-advances", "C31", (TY, """                        replacement: s.to_string(),
                    });
                }
            }
        }

        Self(editor_ops)""", """                        replacement: s.to_string(),
                    });
                    position += s.chars().count();
                }
            }
        }

        Self(editor_ops)"""))
bug("c31-retain-sets", "C31", (TY, "                TextOp::Retain(n) => position += n,", "                TextOp::Retain(n) => position = n,"))
bug("c31-retain-sets-after-delete", "C31", (TY, "                TextOp::Retain(n) => position += n,", "                TextOp::Retain(n) => position = if editor_ops.is_empty() { position + n } else { n },"))
bug("c31-end-is-start", "C31", (TY, "                            end: Position::from_offset(position + n, content),", "                            end: Position::from_offset(position + n.saturating_sub(1), content),"))
bug("c31-character-in-text", "C31", (TY, "        let character = full_offset - rope.line_to_char(line);", "        let character = full_offset - rope.line_to_byte(line);"))
bug("c31-line-of-byte", "C31", (TY, "        let line = rope.char_to_line(full_offset);", "        let line = rope.byte_to_line(full_offset.min(rope.len_bytes()));"))
bug("c31-to-offset-bytes", "C31", (TY, "        rope.line_to_char(self.line) + self.character", "        rope.char_to_byte(rope.line_to_char(self.line)) + self.character"))
bug("c31-forward-by-line", "C31", (TY, """        (self.start.line < self.end.line)
            || (self.start.line == self.end.line && self.start.character <= self.end.character)""", """        (self.start.line < self.end.line)
            || (self.start.character <= self.end.character)"""))
bug("c31-forward-lines-only", "C31", (TY, """        (self.start.line < self.end.line)
            || (self.start.line == self.end.line && self.start.character <= self.end.character)""", """        self.start.line <= self.end.line"""))
bug("c31-empty-by-line", "C31", (TY, "        self.start == self.end\n", "        self.start.character == self.end.character\n"))
bug("c31-backward-position", "C31", (TY, "            (end_offset, start_offset - end_offset)", "            (start_offset, start_offset - end_offset)"))
bug("c31-retain-end", "C31", (TY, "                    delta_step.retain(ed_op.range.start.to_offset(content));", "                    delta_step.retain(ed_op.range.start.character);"))
bug("c31-no-insert-on-replace", "C31", (TY, """                if !ed_op.replacement.is_empty() {
                    // replace
""", """                if ed_op.replacement.len() > 1 {
                    // replace
"""))
bug("c31-op-seq-order", "C31", (TY, """                TextOp::Delete(n) => {
                    op_seq.delete(n as u64);""", """                TextOp::Delete(n) => {
                    op_seq.retain(n as u64);"""))
bug("c31-op-seq-drop", "C31", (TY, """                TextOp::Retain(n) => {
                    op_seq.retain(n as u64);""", """                TextOp::Retain(n) if n > 1 => {
                    op_seq.retain(n as u64);
                }
                TextOp::Retain(_) => {"""))
bug("c31-ops-skip", "C31", (TY, "        for op in op_seq.ops() {", "        for op in op_seq.ops().iter().skip_while(|op| matches!(op, OTOperation::Retain(0))).take(64) {"))
bug("c31-ops-break", "C31", (TY, """                OTOperation::Delete(n) => {
                    delta.delete(*n as usize);
""", """                OTOperation::Delete(n) => {
                    delta.delete(*n as usize);
                    if delta.0.len() > 100 {
                        break;
                    }
"""))
bug("c31-compose-no-pad", "C31", (TY, "        if my_op_seq.target_len() < other_op_seq.base_len() {", "        if my_op_seq.base_len() < other_op_seq.base_len() {"))
bug("c31-compose-pad-wrong", "C31", (TY, "            my_op_seq.retain((other_op_seq.base_len() - my_op_seq.target_len()) as u64);", "            my_op_seq.retain((other_op_seq.base_len() - my_op_seq.base_len()) as u64);"))
bug("c31-patch-index-lost", "C31", (TY, """                            delta.retain(index);
                            delta.delete(length);""", """                            delta.retain(index.saturating_sub(1));
                            delta.delete(length);"""))
bug("c31-patch-length-one", "C31", (TY, """                            delta.delete(length);""", """                            delta.delete(length.min(index + 1));"""))
bug("c31-patch-trim", "C31", (TY, """                            delta.insert(&value.make_string());
                            Ok""", """                            delta.insert(value.make_string().trim_end_matches('\\u{0}'));
                            Ok"""))
bug("c31-apply-offset-sign", "C31 C42", (DO, "            offset -= length as isize;", "            offset += length as isize;"))
bug("c31-apply-offset-bytes", "C31 C42", (DO, "            offset += op.replacement.chars().count() as isize;", "            offset += op.replacement.len() as isize;"))
bug("c31-apply-no-offset", "C31 C42", (DO, "                    ((start as isize) + offset) as usize,", "                    start,"))
bug("c31-apply-offset-once", "C31 C42", (DO, "            offset += op.replacement.chars().count() as isize;", "            offset = op.replacement.chars().count() as isize - length as isize;"))
bug("c31-apply-fresh-text", "C31 C42", (DO, """            let (start, length) = op.range.as_relative(&text);""", """            let text = self.current_file_content(file_path).expect("Should exist");
            let (start, length) = op.range.as_relative(&text);"""))
bug("c31-apply-skip-empty", "C31 C42", (DO, """            let (start, length) = op.range.as_relative(&text);""", """            if op.range.is_empty() {
                continue;
            }
            let (start, length) = op.range.as_relative(&text);"""))
bug("c42-chunk-bytes", "C42", (TY, """                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());""", """                Chunk::Delete(s) => {
                    delta.delete(s.len());"""))
bug("c42-equal-chars", "C42", (TY, """                Chunk::Equal(s) => {
                    delta.retain(s.chars().count());""", """                Chunk::Equal(s) => {
                    delta.retain(s.encode_utf16().count());"""))
bug("c42-diff-order", "C42", (DO, "            let chunks = dissimilar::diff(&current_text, desired_text);", "            let chunks = dissimilar::diff(desired_text, &current_text);"))
bug("c42-early-return", "C42", (DO, "            if let [] | [Chunk::Equal(_)] = chunks.as_slice() {", "            if let [] | [_] = chunks.as_slice() {"))
bug("c42-early-return-two", "C42", (DO, "            if let [] | [Chunk::Equal(_)] = chunks.as_slice() {", "            if let [] | [Chunk::Equal(_), ..] = chunks.as_slice() {"))
bug("c42-trimmed", "C42", (DO, "            let chunks = dissimilar::diff(&current_text, desired_text);", "            let chunks = dissimilar::diff(&current_text, desired_text.trim_end());"))
bug("c42-init-splice", "C42", (DO, "            .splice_text(text_obj, 0, 0, text)", "            .splice_text(text_obj, 0, 0, text.trim_start_matches('\\u{feff}'))"))
same("c31-while-let", (TY, """        for op in op_seq.ops() {
            match op {""", """        let mut ops = op_seq.ops().iter();
        while let Some(op) = ops.next() {
            match op {"""))
same("c31-for-each", (TY, """        for op in delta {
            match op {
                TextOp::Retain(n) => {
                    op_seq.retain(n as u64);
                }
                TextOp::Insert(s) => {
                    op_seq.insert(&s);
                }
                TextOp::Delete(n) => {
                    op_seq.delete(n as u64);
                }
            }
        }
        op_seq""", """        delta.into_iter().for_each(|op| match op {
            TextOp::Retain(n) => op_seq.retain(n as u64),
            TextOp::Insert(s) => op_seq.insert(&s),
            TextOp::Delete(n) => op_seq.delete(n as u64),
        });
        op_seq"""))
same("c31-push-directly", (TY, """                Chunk::Equal(s) => {
                    delta.retain(s.chars().count());
                }
                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());
                }
                Chunk::Insert(s) => {
                    delta.insert(s);
                }
            }
        }
        delta""", """                Chunk::Equal(s) => delta.0.push(TextOp::Retain(s.chars().count())),
                Chunk::Delete(s) => delta.0.push(TextOp::Delete(s.chars().count())),
                Chunk::Insert(s) => delta.0.push(TextOp::Insert(s.to_string())),
            }
        }
        delta"""))
same("c31-map-collect", (TY, """        let mut delta = TextDelta::default();
        for chunk in chunks {
            match chunk {
                Chunk::Equal(s) => {
                    delta.retain(s.chars().count());
                }
                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());
                }
                Chunk::Insert(s) => {
                    delta.insert(s);
                }
            }
        }
        delta""", """        TextDelta(
            chunks
                .into_iter()
                .map(|chunk| match chunk {
                    Chunk::Equal(s) => TextOp::Retain(s.chars().count()),
                    Chunk::Delete(s) => TextOp::Delete(s.chars().count()),
                    Chunk::Insert(s) => TextOp::Insert(s.to_string()),
                })
                .collect(),
        )"""))
same("c31-range-helper", (TY, """impl EditorTextDelta {
    pub fn from_delta(""", """fn replacement(from: usize, to: usize, text: String, content: &str) -> EditorTextOp {
    EditorTextOp {
        range: Range {
            start: Position::from_offset(from, content),
            end: Position::from_offset(to, content),
        },
        replacement: text,
    }
}

impl EditorTextDelta {
    pub fn from_delta("""), (TY, """                    editor_ops.push(EditorTextOp {
                        range: Range {
                            start: Position::from_offset(position, content),
                            end: Position::from_offset(position + n, content),
                        },
                        replacement: String::new(),
                    });
                    position += n;""", """                    let end = position + n;
                    editor_ops.push(replacement(position, end, String::new(), content));
                    position = end;"""), (TY, """                    editor_ops.push(EditorTextOp {
                        range: Range {
                            start: Position::from_offset(position, content),
                            end: Position::from_offset(position, content),
                        },
                        replacement: s.to_string(),
                    });""", """                    editor_ops.push(replacement(position, position, s, content));"""))
same("c31-relative-minmax", (TY, """        if self.is_forward() {
            (start_offset, end_offset - start_offset)
        } else {
            (end_offset, start_offset - end_offset)
        }""", """        if !self.is_forward() {
            return (end_offset, start_offset - end_offset);
        }
        (start_offset, end_offset - start_offset)"""))
same("c31-forward-cmp", (TY, """        (self.start.line < self.end.line)
            || (self.start.line == self.end.line && self.start.character <= self.end.character)""", """        if self.start.line == self.end.line {
            self.start.character <= self.end.character
        } else {
            self.start.line < self.end.line
        }"""))
same("c31-apply-length", (DO, """            offset -= length as isize;
            offset += op.replacement.chars().count() as isize;""", """            let inserted = op.replacement.chars().count() as isize;
            offset += inserted - length as isize;"""))
same("c31-ed-unconditional", (TY, """                if !ed_op.replacement.is_empty() {
                    // replace
                    delta_step.insert(&ed_op.replacement);
                }""", """                delta_step.insert(&ed_op.replacement);"""))
same("c31-ed-one-branch", (TY, """            if ed_op.range.is_empty() {
                if !ed_op.replacement.is_empty() {
                    // insert
                    delta_step.retain(ed_op.range.start.to_offset(content));
                    delta_step.insert(&ed_op.replacement);
                }
            } else {
                // delete or replace
                let (position, length) = ed_op.range.as_relative(content);
                delta_step.retain(position);
                delta_step.delete(length);
                if !ed_op.replacement.is_empty() {
                    // replace
                    delta_step.insert(&ed_op.replacement);
                }
            }""", """            let (position, length) = ed_op.range.as_relative(content);
            delta_step.retain(position);
            delta_step.delete(length);
            delta_step.insert(&ed_op.replacement);"""))
same("c31-compose-pad-first", (TY, """        if my_op_seq.target_len() < other_op_seq.base_len() {
            my_op_seq.retain((other_op_seq.base_len() - my_op_seq.target_len()) as u64);
        }""", """        let missing = other_op_seq.base_len().saturating_sub(my_op_seq.target_len());
        my_op_seq.retain(missing as u64);"""))
same("c42-slices", (DO, """            if let [] | [Chunk::Equal(_)] = chunks.as_slice() {
                return;
            }
""", """            if current_text == desired_text {
                return;
            }
"""))

# -- C21 ------------------------------------------------------------------------
bug("c21-chunk-len", "C21", (TY, """                Chunk::Equal(s) => {
                    delta.retain(s.chars().count());""", """                Chunk::Equal(s) => {
                    delta.retain(s.len());"""))
bug("c21-chunk-utf16", "C21", (TY, """                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());""", """                Chunk::Delete(s) => {
                    delta.delete(s.encode_utf16().count());"""))
bug("c21-apply-bytes", "C21", (DO, "            offset += op.replacement.chars().count() as isize;", "            offset += op.replacement.len() as isize;"))
bug("c21-pad-bytes", "C21", (OT, "document.chars().count()", "document.len()"))
bug("c21-line-byte", "C21", (TY, "        let character = full_offset - rope.line_to_char(line);", "        let character = full_offset - rope.line_to_byte(line);"))
bug("c21-offset-utf16", "C21", (TY, "        rope.line_to_char(self.line) + self.character", "        rope.char_to_utf16_cu(rope.line_to_char(self.line)) + self.character"))
bug("c21-fold-len-utf8", "C21", (DO, "            offset += op.replacement.chars().count() as isize;", "            offset += op.replacement.chars().fold(0, |n, c| n + c.len_utf8()) as isize;"))
bug("c21-char-indices", "C21", (DO, "            offset += op.replacement.chars().count() as isize;", "            offset += op.replacement.char_indices().last().map_or(0, |(i, _)| i + 1) as isize;"))
bug("c21-helper-len", "C21", (TY, """                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());""", """                Chunk::Delete(s) => {
                    delta.delete(length_of(s));"""), (TY, "impl<'a> From<Vec<Chunk<'a>>> for TextDelta {", """fn length_of(s: &str) -> usize {
    s.bytes().count()
}

impl<'a> From<Vec<Chunk<'a>>> for TextDelta {"""))
same("c21-is-empty-by-len", (TY, """                if !ed_op.replacement.is_empty() {
                    // insert""", """                if ed_op.replacement.len() > 0 {
                    // insert"""))
same("c21-helper-chars", (TY, """                Chunk::Delete(s) => {
                    delta.delete(s.chars().count());""", """                Chunk::Delete(s) => {
                    delta.delete(length_of(s));"""), (TY, "impl<'a> From<Vec<Chunk<'a>>> for TextDelta {", """fn length_of(s: &str) -> usize {
    s.chars().count()
}

impl<'a> From<Vec<Chunk<'a>>> for TextDelta {"""))
same("c31-fold", (TY, """        let mut op_seq = OperationSeq::default();
        for op in delta {
            match op {
                TextOp::Retain(n) => {
                    op_seq.retain(n as u64);
                }
                TextOp::Insert(s) => {
                    op_seq.insert(&s);
                }
                TextOp::Delete(n) => {
                    op_seq.delete(n as u64);
                }
            }
        }
        op_seq""", """        delta
            .into_iter()
            .fold(OperationSeq::default(), |mut op_seq, op| {
                match op {
                    TextOp::Retain(n) => op_seq.retain(n as u64),
                    TextOp::Insert(s) => op_seq.insert(&s),
                    TextOp::Delete(n) => op_seq.delete(n as u64),
                }
                op_seq
            })"""))
same("c31-fold-position", (TY, """        let mut editor_ops = vec![];
        let mut position = 0;
        for op in delta {
            match op {
                TextOp::Retain(n) => position += n,""", """        let mut editor_ops = vec![];
        delta.into_iter().fold(0, |mut position, op| {
            match op {
                TextOp::Retain(n) => position += n,"""), (TY, """                        replacement: s.to_string(),
                    });
                }
            }
        }

        Self(editor_ops)""", """                        replacement: s.to_string(),
                    });
                }
            }
            position
        });

        Self(editor_ops)"""))

# -- C15 ---------------------------------------------------------------------------
SB = "daemon/src/sandbox.rs"
bug("c15-no-filter", "C15", (DA, """            // Interestingly, the standard filters don't seem to ignore .git.
            .filter_entry(move |dir_entry| {
                let name = dir_entry
                    .path()
                    .file_name()
                    .expect("Failed to get file name from path.")
                    .to_str()
                    .expect("Failed to convert OsStr to str");
                !ignored_things.contains(&name)
            })
            .build()""", """            .build()"""), (DA, """        let ignored_things = [".git", ".ethersync"];
        // TODO: How""", """        // TODO: How"""))
bug("c15-no-standard-filters", "C15", (DA, "            .standard_filters(true)\n", "            .standard_filters(false)\n"))
bug("c15-no-standard-filters-test", "C15", (SB, "        .standard_filters(true)\n", "        .git_ignore(false)\n"))
bug("c15-only-git", "C15", (DA, """        let ignored_things = [".git", ".ethersync"];
        // TODO: How""", """        let ignored_things = [".git"];
        // TODO: How"""))
bug("c15-only-git-test", "C15", (SB, """    let ignored_things = [".git", ".ethersync"];

    // To use""", """    let ignored_things = [".git", ".gitignore"];

    // To use"""))
bug("c15-filter-or", "C15", (SB, "!ignored_things.contains(&name) && !name.ends_with('~')", "!ignored_things.contains(&name) || !name.ends_with('~')"))
bug("c15-test-links", "C15", (SB, """        .filter(|dir_entry| {
            dir_entry
                .file_type()
                .expect("Couldn't get file type of dir entry")
                .is_file()
        })
        .map(""", """        .map("""))
bug("c15-test-name", "C15", (SB, ".any(|path| path == canonical_file_path));", ".any(|path| path.file_name() == canonical_file_path.file_name()));"))
bug("c15-parents", "C15", (SB, "        .hidden(false)\n", "        .hidden(false)\n        .parents(false)\n"))
bug("c15-follow", "C15", (DA, "            .hidden(false)\n", "            .hidden(false)\n            .follow_links(true)\n"))
bug("c15-start-links", "C15", (DA, """            .filter(|dir_entry| {
                dir_entry
                    .file_type()
                    .expect("Couldn't get file type of dir entry.")
                    .is_file()
            })
            .for_each""", """            .filter(|dir_entry| !dir_entry.path().is_dir())
            .for_each"""))
bug("c15-modified-untested", "C15", (WA, """                if is_ignored {
                    debug!("Ignoring modification of '{}'", file_path.display());
                    return None;
                }""", """                if is_ignored {
                    debug!("Modification of ignored '{}'", file_path.display());
                }"""))
bug("c15-created-error", "C15", (WA, """                debug!(
                    "Ignoring creation of '{}' because of an error: {}",
                    file_path.display(),
                    error
                );
                return None;""", """                debug!(
                    "Could not check '{}' because of an error: {}",
                    file_path.display(),
                    error
                );"""))
bug("c15-rename-tests-old-name", "C15", (WA, """                    let created = self.maybe_created(&event.paths[1]);
""", """                    let created = self
                        .maybe_created(&event.paths[0])
                        .map(|_| WatcherEvent::Created { file_path: event.paths[1].clone() });
"""))
bug("c15-open-untested", "C15", (EC, """                if sandbox::ignored(&self.base_dir, &absolute_path)
                    .expect("Could not check ignore status of opened file")
                {""", """                if sandbox::ignored(&self.base_dir, &absolute_path).unwrap_or(false)
                    && !absolute_path.starts_with(&self.base_dir)
                {"""))
bug("c15-open-existing-only", "C15", (EC, """                    sandbox::write_file(&self.base_dir, &absolute_path, b"")
                        .map_err(anyhow_err_to_protocol_err)?;
                }

                // We only want to process these messages for files that are not ignored.
                if sandbox::ignored(&self.base_dir, &absolute_path)
                    .expect("Could not check ignore status of opened file")
                {""", """                    sandbox::write_file(&self.base_dir, &absolute_path, b"")
                        .map_err(anyhow_err_to_protocol_err)?;
                } else if sandbox::ignored(&self.base_dir, &absolute_path)
                    .expect("Could not check ignore status of opened file")
                {"""))
bug("c15-removed-is-back", "C15", (DA, """                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _""", """                if self.owns(&relative_file_path) {
                    if let Ok(Ok(content)) =
                        sandbox::read_file(&self.base_dir, Path::new(&file_path))
                            .map(String::from_utf8)
                    {
                        self.crdt_doc.update_text(&content, &relative_file_path);
                    } else {
                        self.crdt_doc.remove_text(&relative_file_path);
                    }
                    let _"""))
bug("c15-open-takes-disk", "C15", (DA, """                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = String::new();""", """                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = sandbox::read_file(
                        &self.base_dir,
                        &self.absolute_path_for_file_path(file_path),
                    )
                    .ok()
                    .and_then(|bytes| String::from_utf8(bytes).ok())
                    .unwrap_or_default();"""))
bug("c15-open-symlink-parent", "C15", (EC, """                if sandbox::ignored(&self.base_dir, &absolute_path)
                    .expect""", """                let directory = absolute_path.parent().unwrap_or(&self.base_dir).join("x");
                if sandbox::ignored(&self.base_dir, &directory)
                    .expect"""))
same("c15-walk-statements", (DA, """        WalkBuilder::new(self.base_dir.clone())
            .standard_filters(true)
            .hidden(false)
            // Interestingly, the standard filters don't seem to ignore .git.
            .filter_entry(move |dir_entry| {
                let name = dir_entry
                    .path()
                    .file_name()
                    .expect("Failed to get file name from path.")
                    .to_str()
                    .expect("Failed to convert OsStr to str");
                !ignored_things.contains(&name)
            })
            .build()""", """        let mut builder = WalkBuilder::new(self.base_dir.clone());
        builder.standard_filters(true);
        builder.hidden(false);
        builder.filter_entry(move |dir_entry| {
            let Some(name) = dir_entry.path().file_name() else {
                return true;
            };
            let name = name.to_str().expect("Failed to convert OsStr to str");
            ignored_things.iter().all(|x| *x != name)
        });
        builder.build()"""))
same("c15-filter-fn", (DA, """            .filter_entry(move |dir_entry| {
                let name = dir_entry
                    .path()
                    .file_name()
                    .expect("Failed to get file name from path.")
                    .to_str()
                    .expect("Failed to convert OsStr to str");
                !ignored_things.contains(&name)
            })
            .build()
    }
""", """            .filter_entry(Self::may_be_shared)
            .build()
    }

    fn may_be_shared(dir_entry: &ignore::DirEntry) -> bool {
        let name = dir_entry
            .path()
            .file_name()
            .expect("Failed to get file name from path.")
            .to_str()
            .expect("Failed to convert OsStr to str");
        !matches!(name, ".git" | ".ethersync")
    }
"""), (DA, """        let ignored_things = [".git", ".ethersync"];
        // TODO: How""", """        // TODO: How"""))
same("c15-shared-walk", (DA, """        let ignored_things = [".git", ".ethersync"];
        // TODO: How to deal with binary files?
        WalkBuilder::new(self.base_dir.clone())
            .standard_filters(true)
            .hidden(false)
            // Interestingly, the standard filters don't seem to ignore .git.
            .filter_entry(move |dir_entry| {
                let name = dir_entry
                    .path()
                    .file_name()
                    .expect("Failed to get file name from path.")
                    .to_str()
                    .expect("Failed to convert OsStr to str");
                !ignored_things.contains(&name)
            })
            .build()""", """        sandbox::walk_shareable(&self.base_dir, |_| true)"""), (DA, "use ignore::{Walk, WalkBuilder};", "use ignore::Walk;"), (SB, """    let ignored_things = [".git", ".ethersync"];

    // To use""", """    // To use"""), (SB, """    let walk = WalkBuilder::new(absolute_base_dir)
        .standard_filters(true)
        .hidden(false)
        // Interestingly, the standard filters don't seem to ignore .git.
        .filter_entry(move |dir_entry| {
            let name = dir_entry
                .path()
                .file_name()
                .expect("Failed to get file name from path.")
                .to_str()
                .expect("Failed to convert OsStr to str");
            !ignored_things.contains(&name) && !name.ends_with('~')
        })
        .build();
""", """    let walk = walk_shareable(absolute_base_dir, |name| !name.ends_with('~'));
"""), (SB, "pub fn ignored(", """pub fn walk_shareable(base_dir: &Path, also: fn(&str) -> bool) -> ignore::Walk {
    let ignored_things = [".git", ".ethersync"];
    WalkBuilder::new(base_dir)
        .standard_filters(true)
        .hidden(false)
        .filter_entry(move |dir_entry| {
            let name = dir_entry
                .path()
                .file_name()
                .expect("Failed to get file name from path.")
                .to_str()
                .expect("Failed to convert OsStr to str");
            !ignored_things.contains(&name) && also(name)
        })
        .build()
}

pub fn ignored("""))
same("c15-test-loop", (SB, """    return Ok(!walk
        .filter_map(Result::ok)
        .filter(|dir_entry| {
            dir_entry
                .file_type()
                .expect("Couldn't get file type of dir entry")
                .is_file()
        })
        .map(|dir_entry| absolute_and_canonicalized(dir_entry.path()))
        .filter_map(Result::ok)
        .any(|path| path == canonical_file_path));
""", """    for dir_entry in walk {
        let Ok(dir_entry) = dir_entry else {
            continue;
        };
        let file_type = dir_entry
            .file_type()
            .expect("Couldn't get file type of dir entry");
        if !file_type.is_file() {
            continue;
        }
        if let Ok(path) = absolute_and_canonicalized(dir_entry.path()) {
            if path == canonical_file_path {
                return Ok(false);
            }
        }
    }
    Ok(true)
"""))
same("c15-watcher-helper", (WA, """    fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
        match sandbox::ignored(&self.base_dir, file_path) {
            Ok(is_ignored) => {
                if is_ignored {
                    debug!("Ignoring creation of '{}'", file_path.display());
                    return None;
                }
                // We only dispatch the event, if ignore check worked and it's not ignored.
            }
            Err(error) => {
                debug!(
                    "Ignoring creation of '{}' because of an error: {}",
                    file_path.display(),
                    error
                );
                return None;
            }
        }

        Some(WatcherEvent::Created {
            file_path: file_path.to_path_buf(),
        })
    }
""", """    fn shareable(&self, file_path: &Path) -> bool {
        matches!(sandbox::ignored(&self.base_dir, file_path), Ok(false))
    }

    fn maybe_created(&self, file_path: &Path) -> Option<WatcherEvent> {
        if !self.shareable(file_path) {
            debug!("Ignoring creation of '{}'", file_path.display());
            return None;
        }
        let file_path = file_path.to_path_buf();
        Some(WatcherEvent::Created { file_path })
    }
"""), (WA, """        match sandbox::ignored(&self.base_dir, file_path) {
            Ok(is_ignored) => {
                if is_ignored {
                    debug!("Ignoring modification of '{}'", file_path.display());
                    return None;
                }
                // We only dispatch the event, if ignore check worked and it's not ignored.
            }
            Err(error) => {
                debug!(
                    "Ignoring modification of '{}' because of an error: {}",
                    file_path.display(),
                    error
                );
                return None;
            }
        }

        Some(WatcherEvent::Changed {
            file_path: file_path.to_path_buf(),
        })""", """        self.shareable(file_path).then(|| WatcherEvent::Changed {
            file_path: file_path.to_path_buf(),
        })"""))
same("c15-open-helper", (EC, """                if sandbox::ignored(&self.base_dir, &absolute_path)
                    .expect("Could not check ignore status of opened file")
                {
                    return Err(EditorProtocolMessageError {
                        code: -1,
                        message: format!("File {absolute_path} is ignored"),
                        data: Some("This file should not be shared with other peers".into()),
                    });
                }
""", """                self.check_shareable(&absolute_path)?;
"""), (EC, "    pub fn message_from_editor(", """    fn check_shareable(&self, absolute_path: &AbsolutePath) -> Result<(), EditorProtocolMessageError> {
        let is_ignored = sandbox::ignored(&self.base_dir, absolute_path)
            .expect("Could not check ignore status of opened file");
        if is_ignored {
            Err(EditorProtocolMessageError {
                code: -1,
                message: format!("File {absolute_path} is ignored"),
                data: Some("This file should not be shared with other peers".into()),
            })
        } else {
            Ok(())
        }
    }

    pub fn message_from_editor("""))
same("c15-filter-name-fn", (DA, """                !ignored_things.contains(&name)
            })
            .build()
    }
""", """                !Self::internal(name)
            })
            .build()
    }

    fn internal(name: &str) -> bool {
        name == ".git" || name == ".ethersync"
    }
"""), (DA, """        let ignored_things = [".git", ".ethersync"];
        // TODO: How""", """        // TODO: How"""))
same("c15-filter-any", (DA, """                !ignored_things.contains(&name)
""", """                !ignored_things.iter().any(|&thing| thing == name)
"""), (SB, "!ignored_things.contains(&name) && !name.ends_with('~')", "!(ignored_things.contains(&name) || name.ends_with('~'))"))
same("c15-test-count", (SB, """    return Ok(!walk
""", """    let found = walk
"""), (SB, """        .any(|path| path == canonical_file_path));
""", """        .find(|path| *path == canonical_file_path);
    Ok(found.is_none())
"""))

# -- C17 ---------------------------------------------------------------------------
bug("c17-init-always", "C17", (DA, "            s.read_current_content_from_dir(init);", "            s.read_current_content_from_dir(true);"))
bug("c17-load-despite-init", "C17", (DA, "let crdt_doc = if persistence_file_exists && !init {", "let crdt_doc = if persistence_file_exists {"))
bug("c17-never-load-joining", "C17", (DA, "let crdt_doc = if persistence_file_exists && !init {", "let crdt_doc = if persistence_file_exists && !init && is_host {"))
bug("c17-joiner-shares", "C17", (DA, """        } else if is_host {
            s.read""", """        } else if is_host || !init {
            s.read"""))
bug("c17-joiner-no-merge", "C17", (DA, """        if persistence_file_exists {
            s.read_current_content_from_dir(init);
        } else if is_host {
            s.read_current_content_from_dir(true);
        }""", """        if is_host {
            s.read_current_content_from_dir(init || !persistence_file_exists);
        }"""))
bug("c17-host-not-filled", "C17", (DA, """        if persistence_file_exists {
            s.read_current_content_from_dir(init);
        } else if is_host {
            s.read_current_content_from_dir(true);
        }""", """        if persistence_file_exists || init {
            s.read_current_content_from_dir(init);
        }"""))
bug("c17-no-clean", "C17", (DA, """                self.crdt_doc.remove_text(&file_path);
            }
        }
        let _ = self.doc_changed_ping_tx.send(());
    }

    fn current_file_content""", """            }
        }
        let _ = self.doc_changed_ping_tx.send(());
    }

    fn current_file_content"""))
bug("c17-clean-inverted", "C17", (DA, "if !sandbox::exists(&self.base_dir, &absolute_file_path).expect(\"\") {", "if sandbox::exists(&self.base_dir, &absolute_file_path).expect(\"\") {"))
bug("c17-empty-skipped", "C17", (DA, """                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {""", """                        if bytes.is_empty() {
                            return;
                        }
                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {"""))
bug("c17-known-only", "C17", (DA, """                            } else {
                                self.crdt_doc.update_text(&text, &relative_file_path);
                            }""", """                            } else if self.crdt_doc.file_exists(&relative_file_path) {
                                self.crdt_doc.update_text(&text, &relative_file_path);
                            }"""))
bug("c17-clean-first", "C17", (DA, """        for file_path in self.crdt_doc.files() {
            let absolute_file_path""", """        for file_path in self.crdt_doc.files().into_iter().take(1) {
            let absolute_file_path"""))
bug("c17-init-only-new", "C17", (DA, """                            if init {
                                self.crdt""", """                            if init || !text.is_empty() {
                                self.crdt"""))
bug("c17-update-replaces", "C17", (DO, """        if self.text_obj(file_path).is_ok() {""", """        if self.text_obj(file_path).is_ok() && !desired_text.is_empty() {"""))
bug("c17-first-error-stops", "C17", (DA, """        self.build_walk()
            .filter_map(Result::ok)
""", """        self.build_walk()
            .map_while(Result::ok)
"""))
same("c17-match", (DA, """        if persistence_file_exists {
            s.read_current_content_from_dir(init);
        } else if is_host {
            s.read_current_content_from_dir(true);
        }""", """        match (persistence_file_exists, is_host) {
            (true, _) => s.read_current_content_from_dir(init),
            (false, true) => s.read_current_content_from_dir(true),
            (false, false) => {}
        }"""))
same("c17-load-helper", (DA, """        let crdt_doc = if persistence_file_exists && !init {
            info!(
                "Loading persisted CRDT document from '{}'",
                persistence_file.display()
            );
            let bytes = sandbox::read_file(&base_dir, &persistence_file)
                .unwrap_or_else(|_| panic!("Could not read file '{}'", persistence_file.display()));
            Document::load(&bytes)
        } else {
            Document::default()
        };""", """        let crdt_doc = if init || !persistence_file_exists {
            Document::default()
        } else {
            Self::load_saved(&base_dir, &persistence_file)
        };"""), (DA, """    /// If any editor owns the file, it means that the daemon""", """    fn load_saved(base_dir: &Path, persistence_file: &Path) -> Document {
        info!(
            "Loading persisted CRDT document from '{}'",
            persistence_file.display()
        );
        let bytes = sandbox::read_file(base_dir, persistence_file)
            .unwrap_or_else(|_| panic!("Could not read file '{}'", persistence_file.display()));
        Document::load(&bytes)
    }

    /// If any editor owns the file, it means that the daemon"""))
same("c17-for-loop", (DA, """        self.build_walk()
            .filter_map(Result::ok)
            .filter(|dir_entry| {
                dir_entry
                    .file_type()
                    .expect("Couldn't get file type of dir entry.")
                    .is_file()
            })
            .for_each(|dir_entry| {
                let file_path = dir_entry.path();
                match sandbox::read_file(&self.base_dir, file_path) {
                    Ok(bytes) => {
                        let relative_file_path =
                            RelativePath::try_from_path(&self.base_dir, file_path)
                                .expect("Walked file path should be within base directory");
                        if let Ok(text) = String::from_utf8(bytes) {
                            if init {
                                self.crdt_doc.initialize_text(&text, &relative_file_path);
                            } else {
                                self.crdt_doc.update_text(&text, &relative_file_path);
                            }
                        } else {
                            warn!("Ignoring non-UTF-8 file {relative_file_path}",)
                        }
                    }
                    Err(e) => {
                        warn!("Failed to read file '{}': {e}", file_path.display());
                    }
                }
            });
""", """        for dir_entry in self.build_walk() {
            let Ok(dir_entry) = dir_entry else { continue };
            let file_type = dir_entry
                .file_type()
                .expect("Couldn't get file type of dir entry.");
            if !file_type.is_file() {
                continue;
            }
            self.merge_from_disk(dir_entry.path(), init);
        }
"""), (DA, "    fn current_file_content(&self", """    fn merge_from_disk(&mut self, file_path: &Path, init: bool) {
        let bytes = match sandbox::read_file(&self.base_dir, file_path) {
            Ok(bytes) => bytes,
            Err(e) => {
                warn!("Failed to read file '{}': {e}", file_path.display());
                return;
            }
        };
        let relative_file_path = RelativePath::try_from_path(&self.base_dir, file_path)
            .expect("Walked file path should be within base directory");
        match String::from_utf8(bytes) {
            Ok(text) if init => self.crdt_doc.initialize_text(&text, &relative_file_path),
            Ok(text) => self.crdt_doc.update_text(&text, &relative_file_path),
            Err(_) => warn!("Ignoring non-UTF-8 file {relative_file_path}"),
        }
    }

    fn current_file_content(&self"""))
same("c17-clean-filter", (DA, """        for file_path in self.crdt_doc.files() {
            let absolute_file_path = self.absolute_path_for_file_path(&file_path);
            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
                warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
                self.crdt_doc.remove_text(&file_path);
            }
        }""", """        let missing: Vec<_> = self
            .crdt_doc
            .files()
            .into_iter()
            .filter(|file_path| {
                let absolute_file_path = self.absolute_path_for_file_path(file_path);
                !sandbox::exists(&self.base_dir, &absolute_file_path).expect("")
            })
            .collect();
        for file_path in missing {
            warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
            self.crdt_doc.remove_text(&file_path);
        }"""))
bug("c42-created-replaces", "C42", (DA, """                        self.crdt_doc.update_text(&content, &relative_file_path);
                    } else {""", """                        self.crdt_doc.initialize_text(&content, &relative_file_path);
                    } else {"""))
bug("c42-changed-replaces", "C42", (DA, """                        self.crdt_doc.update_text(&new_content, &relative_file_path);""", """                        self.crdt_doc.initialize_text(&new_content, &relative_file_path);"""))
bug("c42-open-replaces", "C42", (DA, """                self.current_file_content(file_path).unwrap_or_else(|_| {
                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = String::new();
                    self.crdt_doc.initialize_text(&text, file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                    text
                });""", """                if self.current_file_content(file_path).unwrap_or_default().is_empty() {
                    // The file doesn't exist yet - create it in the Automerge document.
                    self.crdt_doc.initialize_text("", file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }"""))
same("c42-open-exists", (DA, """                self.current_file_content(file_path).unwrap_or_else(|_| {
                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = String::new();
                    self.crdt_doc.initialize_text(&text, file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                    text
                });""", """                if !self.crdt_doc.file_exists(file_path) {
                    // The file doesn't exist yet - create it in the Automerge document.
                    self.crdt_doc.initialize_text("", file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }"""))
FULLSAVE = """                    sandbox::write_file(&self.base_dir, &temporary_file, &bytes)
                        .and_then(|()| {
                            sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)
                        })
                        .unwrap_or_else(|_| {
                            panic!("Failed to persist to '{}'", persistence_file.display())
                        });
                    self.save_fully = false
"""
PARTSAVE = """                    let bytes = self.crdt_doc.save_incremental();
                    sandbox::append_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
                    );
"""
bug("c18-starts-incremental", "C18", (DA, "            save_fully: true,", "            save_fully: init,"))
bug("c18-flag-before", "C18", (DA, FULLSAVE, """                    self.save_fully = false;
                    if let Err(e) = sandbox::write_file(&self.base_dir, &temporary_file, &bytes)
                        .and_then(|()| {
                            sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)
                        })
                    {
                        warn!("Failed to persist: {e}");
                    }
"""))
bug("c18-direct", "C18", (DA, FULLSAVE, """                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes)
                        .unwrap_or_else(|_| {
                            panic!("Failed to persist to '{}'", temporary_file.display())
                        });
                    self.save_fully = false
"""))
bug("c18-always-append", "C18", (DA, "                if self.save_fully {\n", "                if self.save_fully && !persistence_file.exists() {\n"))
bug("c18-rename-anyway", "C18", (DA, FULLSAVE, """                    let _ = sandbox::write_file(&self.base_dir, &temporary_file, &bytes);
                    sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)
                        .unwrap_or_else(|_| {
                            panic!("Failed to persist to '{}'", persistence_file.display())
                        });
                    self.save_fully = false
"""))
bug("c18-partial-bytes", "C18", (DA, "                    let bytes = self.crdt_doc.save();\n", "                    let bytes = self.crdt_doc.save_incremental();\n"))
bug("c18-append-ignored", "C18", (DA, PARTSAVE, """                    let bytes = self.crdt_doc.save_incremental();
                    if let Err(e) = sandbox::append_file(&self.base_dir, &persistence_file, &bytes) {
                        warn!("Failed to persist: {e}");
                    }
"""))
bug("c18-append-small-skipped", "C18", (DA, PARTSAVE, """                    let bytes = self.crdt_doc.save_incremental();
                    if bytes.len() > 16 {
                        sandbox::append_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
                            |_| panic!("Failed to persist to '{}'", persistence_file.display()),
                        );
                    }
"""))
bug("c18-append-full", "C18", (DA, "                    let bytes = self.crdt_doc.save_incremental();\n", "                    let bytes = self.crdt_doc.save();\n"))
bug("c18-not-append", "C18", (SB, "    let mut file = OpenOptions::new().append(true).open(canonical_file_path)?;", "    let mut file = OpenOptions::new().write(true).open(canonical_file_path)?;"))
bug("c18-partial-write", "C18", (SB, """    let mut file = OpenOptions::new().append(true).open(canonical_file_path)?;
    file.write_all(content)?;""", """    let mut file = OpenOptions::new().append(true).open(canonical_file_path)?;
    let _ = file.write(content)?;"""))
bug("c18-remove-first", "C18", (DA, FULLSAVE, """                    let _ = sandbox::remove_file(&self.base_dir, &persistence_file);
""" + FULLSAVE))
bug("c18-start-removes", "C18", (DA, "        let crdt_doc = if persistence_file_exists && !init {", "        if init && persistence_file_exists {\n            let _ = sandbox::remove_file(&base_dir, &persistence_file);\n        }\n\n        let crdt_doc = if persistence_file_exists && !init {"))
bug("c18-load-gives-up", "C18", (DO, "AutoCommit::load(bytes).unwrap_or_else(|_| Self::load_complete_part(bytes))", "AutoCommit::load(bytes).expect(\"Failed to load\")"))
bug("c18-tmp-elsewhere", "C18", (DA, 'self.base_dir.join(".ethersync/doc.tmp")', 'self.base_dir.join("doc.tmp")'))
bug("c18-persist-skipped", "C18", (DA, "                let persistence_file = self.base_dir.join(\".ethersync/doc\");\n                if self.save_fully {", "                if self.editor_connections.is_empty() {\n                    return;\n                }\n                let persistence_file = self.base_dir.join(\".ethersync/doc\");\n                if self.save_fully {"))
bug("c18-flag-elsewhere", "C18", (DA, "            DocMessage::RandomEdit => {\n", "            DocMessage::RandomEdit => {\n                self.save_fully = false;\n"))
same("c18-append-retry", (DA, PARTSAVE, """                    let bytes = self.crdt_doc.save_incremental();
                    if let Err(e) = sandbox::append_file(&self.base_dir, &persistence_file, &bytes) {
                        warn!("Failed to persist: {e}");
                        self.save_fully = true;
                    }
"""))
same("c18-append-nonempty", (DA, PARTSAVE, """                    let bytes = self.crdt_doc.save_incremental();
                    if !bytes.is_empty() {
                        sandbox::append_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
                            |_| panic!("Failed to persist to '{}'", persistence_file.display()),
                        );
                    }
"""))
same("c18-helper", (DA, FULLSAVE, """                    self.replace_saved(&bytes, &temporary_file, &persistence_file);
"""), (DA, "    fn current_file_content(&self", """    fn replace_saved(&mut self, bytes: &[u8], temporary_file: &Path, persistence_file: &Path) {
        if let Err(e) = sandbox::write_file(&self.base_dir, temporary_file, bytes) {
            panic!("Failed to write '{}': {e}", temporary_file.display());
        }
        sandbox::rename_file(&self.base_dir, temporary_file, persistence_file)
            .expect("Failed to replace the saved document");
        self.save_fully = false;
    }

    fn current_file_content(&self"""))
PERSIST = """                let persistence_file = self.base_dir.join(".ethersync/doc");
                if self.save_fully {
                    debug!("Persisting fully!");
                    let bytes = self.crdt_doc.save();
                    // Replace the file in one step, so that it's complete at any time.
                    let temporary_file = self.base_dir.join(".ethersync/doc.tmp");
""" + FULLSAVE + """                } else {
                    debug!("Persisting incrementally!");
""" + PARTSAVE + """                }
"""
same("c18-persist-method", (DA, PERSIST, """                self.persist();
"""), (DA, "    fn current_file_content(&self", """    fn persist(&mut self) {
""" + PERSIST + """    }

    fn current_file_content(&self"""))
same("c18-persist-result", (DA, PERSIST, """                if let Err(e) = self.persist() {
                    panic!("Failed to persist: {e}");
                }
"""), (DA, "    fn current_file_content(&self", """    fn persist(&mut self) -> Result<()> {
        let persistence_file = self.base_dir.join(".ethersync/doc");
        if !self.save_fully {
            let bytes = self.crdt_doc.save_incremental();
            return sandbox::append_file(&self.base_dir, &persistence_file, &bytes);
        }
        let bytes = self.crdt_doc.save();
        let temporary_file = self.base_dir.join(".ethersync/doc.tmp");
        sandbox::write_file(&self.base_dir, &temporary_file, &bytes)?;
        sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)?;
        self.save_fully = false;
        Ok(())
    }

    fn current_file_content(&self"""))
bug("c18-persist-result-logged", "C18", (DA, PERSIST, """                if let Err(e) = self.persist() {
                    warn!("Failed to persist: {e}");
                }
"""), (DA, "    fn current_file_content(&self", """    fn persist(&mut self) -> Result<()> {
        let persistence_file = self.base_dir.join(".ethersync/doc");
        if !self.save_fully {
            let bytes = self.crdt_doc.save_incremental();
            return sandbox::append_file(&self.base_dir, &persistence_file, &bytes);
        }
        let bytes = self.crdt_doc.save();
        let temporary_file = self.base_dir.join(".ethersync/doc.tmp");
        sandbox::write_file(&self.base_dir, &temporary_file, &bytes)?;
        sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file)?;
        self.save_fully = false;
        Ok(())
    }

    fn current_file_content(&self"""))
same("c18-enum", (DA, "    save_fully: bool,", "    next_save: NextSave,"), (DA, "            save_fully: true,", "            next_save: NextSave::Full,"),
     (DA, "                if self.save_fully {", "                if matches!(self.next_save, NextSave::Full) {"), (DA, "                    self.save_fully = false", "                    self.next_save = NextSave::Incremental"),
     (DA, "/// This Actor is responsible", "enum NextSave {\n    Full,\n    Incremental,\n}\n\n/// This Actor is responsible"))
same("c18-always-full", (DA, PARTSAVE, """                    let bytes = self.crdt_doc.save();
                    let temporary_file = self.base_dir.join(".ethersync/doc.tmp");
                    sandbox::write_file(&self.base_dir, &temporary_file, &bytes).expect("write");
                    sandbox::rename_file(&self.base_dir, &temporary_file, &persistence_file).expect("rename");
"""))
MA = D + "main.rs" if D.endswith("/") else D + "/main.rs"
HOOK = """    let default_panic = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        default_panic(info);
        std::process::exit(1);
    }));

"""
bug("c23-no-hook", "C23", (MA, HOOK, ""))
bug("c23-late", "C23", (MA, HOOK, ""), (MA, "            match signal::ctrl_c().await {", HOOK + "            match signal::ctrl_c().await {"))
bug("c23-status", "C23", (MA, "        std::process::exit(1);", "        std::process::exit(0);"))
bug("c23-silent", "C23", (MA, HOOK, """    std::panic::set_hook(Box::new(move |_info| {
        std::process::exit(1);
    }));

"""))
bug("c23-no-exit", "C23", (MA, "        std::process::exit(1);", "        error!(\"A task failed\");"))
bug("c23-main-only", "C23", (MA, "        std::process::exit(1);", "        if std::thread::current().name() == Some(\"main\") {\n            std::process::exit(1);\n        }"))
bug("c23-debug", "C23", (MA, HOOK, ""), (MA, "    logging::initialize(cli.debug);\n", "    logging::initialize(cli.debug);\n    if !cli.debug {\n" + HOOK + "    }\n"))
bug("c23-restored", "C23", (MA, "            info!(\"Starting Ethersync on", "            let _ = std::panic::take_hook();\n            info!(\"Starting Ethersync on"))
same("c23-fn", (MA, HOOK, """    install_panic_hook();

"""), (MA, "#[tokio::main]", """fn install_panic_hook() {
    let default_panic = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| exit_on_panic(&default_panic, info)));
}

fn exit_on_panic(
    default_panic: &dyn Fn(&std::panic::PanicHookInfo<'_>),
    info: &std::panic::PanicHookInfo<'_>,
) {
    default_panic(info);
    std::process::exit(1);
}

#[tokio::main]"""))
same("c23-abort", (MA, HOOK, """    std::panic::set_hook(Box::new(|info| {
        eprintln!("{info}");
        std::process::abort();
    }));

"""))
same("c23-after-logging", (MA, HOOK, ""), (MA, "    logging::initialize(cli.debug);\n", "    logging::initialize(cli.debug);\n" + HOOK))
bug("c30-file-first", "C30", (MA, "peer_connection_info.takes_precedence_over(config_from_file)", "config_from_file.takes_precedence_over(peer_connection_info)"))
bug("c30-port-file", "C30", (PE, "            port: self.port.or(other.port),", "            port: other.port.or(self.port),"))
bug("c30-peer-cli-only", "C30", (PE, "            peer: self.peer.or(other.peer),", "            peer: self.peer,"))
bug("c30-port-lost", "C30", (PE, "            port: self.port.or(other.port),", "            port: self.port.and(other.port),"))
bug("c30-key", "C30", (PE, 'general_section.get("peer").map', 'general_section.get("host").map'))
bug("c30-host-cli", "C30", (DA, "        init: bool,\n    ) -> Self {\n        let is_host = peer_connection_info.is_host();\n", "        init: bool,\n        is_host: bool,\n    ) -> Self {\n"),
    (MA, "            let config_file = directory", "            let is_host = peer_connection_info.is_host();\n            let config_file = directory"),
    (MA, "&socket_path, &directory, init)", "&socket_path, &directory, init, is_host)"))
bug("c30-host-flipped", "C30", (PE, "        self.peer.is_none()\n", "        self.peer.is_some()\n"))
bug("c30-host-port", "C30", (PE, "        self.peer.is_none()\n", "        self.peer.is_none() || self.port.is_some()\n"))
bug("c30-no-dial-port", "C30", (PE, "        if let Some(ref address) = self.connection_info.peer {", "        if let (Some(ref address), None) = (&self.connection_info.peer, self.connection_info.port) {"))
bug("c30-port-peer-only", "C30", (PE, "            self.connection_info.port.unwrap_or(0)\n", "            if self.connection_info.is_host() { self.connection_info.port.unwrap_or(0) } else { 0 }\n"))
bug("c30-whole-file", "C30", (MA, "            if let Some(config_from_file) = PeerConnectionInfo::from_config_file(&config_file) {\n                peer_connection_info = peer_connection_info.takes_precedence_over(config_from_file);\n            }", "            if peer_connection_info.is_host() {\n                if let Some(config_from_file) = PeerConnectionInfo::from_config_file(&config_file) {\n                    peer_connection_info = config_from_file;\n                }\n            }"))
same("c30-match", (PE, "            port: self.port.or(other.port),", "            port: match self.port {\n                Some(port) => Some(port),\n                None => other.port,\n            },"))
same("c30-if", (PE, """        Self {
            port: self.port.or(other.port),
            peer: self.peer.or(other.peer),
            passphrase: self.passphrase.or(other.passphrase),
        }""", """        let mut merged = other;
        if self.port.is_some() {
            merged.port = self.port;
        }
        if let Some(peer) = self.peer {
            merged.peer = Some(peer);
        }
        if self.passphrase.is_some() {
            merged.passphrase = self.passphrase;
        }
        merged"""))
same("c30-inline", (MA, "                peer_connection_info = peer_connection_info.takes_precedence_over(config_from_file);", "                peer_connection_info.port = peer_connection_info.port.or(config_from_file.port);\n                if peer_connection_info.peer.is_none() {\n                    peer_connection_info.peer = config_from_file.peer;\n                }\n                peer_connection_info.passphrase = config_from_file.passphrase;"))
same("c30-host-match", (PE, "        self.peer.is_none()\n", "        !matches!(self.peer, Some(_))\n"))
same("c30-addr", (PE, """        let listen_addr = format!(
            "/ip4/0.0.0.0/tcp/{}",
            self.connection_info.port.unwrap_or(0)
        )
        .parse()?;
""", """        let listen_addr = Multiaddr::from(Ipv4Addr::UNSPECIFIED)
            .with(Protocol::Tcp(self.connection_info.port.unwrap_or_default()));
"""))
same("c30-dial-helper", (PE, """        if let Some(ref address) = self.connection_info.peer {
            let multiaddr = address
                .parse::<Multiaddr>()
                .expect("Failed to parse argument as `Multiaddr`");

            swarm.dial(multiaddr)?;
        }
""", """        if let Some(multiaddr) = self.address_of_peer() {
            swarm.dial(multiaddr)?;
        }
"""), (PE, "    /// Returns an existing keypair", """    fn address_of_peer(&self) -> Option<Multiaddr> {
        let address = self.connection_info.peer.as_ref()?;
        Some(address.parse().expect("Failed to parse argument as `Multiaddr`"))
    }

    /// Returns an existing keypair"""))
TRANS = """                let transport = tcp::tokio::Transport::new(tcp::Config::new())
                    .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
"""
bug("c09-no-psk", "C09", (PE, TRANS, """                let _ = pnet::PnetConfig::new(psk);
                let transport = tcp::tokio::Transport::new(tcp::Config::new());
"""))
bug("c09-default-skips", "C09", (PE, """                    .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
                let auth = noise::Config::new(keypair)?;
                let mux = yamux::Config::default();

                let tcp_transport = transport
                    .upgrade(Version::V1Lazy)
                    .authenticate(auth)
                    .multiplex(mux);

                Ok(tcp_transport)
            })?""", """                    .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket))
                    .upgrade(Version::V1Lazy)
                    .authenticate(noise::Config::new(keypair)?)
                    .multiplex(yamux::Config::default())
                    .boxed();
                let open_transport = tcp::tokio::Transport::new(tcp::Config::new())
                    .upgrade(Version::V1Lazy)
                    .authenticate(noise::Config::new(keypair)?)
                    .multiplex(yamux::Config::default())
                    .boxed();

                Ok(if is_default_passphrase { open_transport } else { transport })
            })?"""))
bug("c09-or-open", "C09", (PE, TRANS, """                let transport = tcp::tokio::Transport::new(tcp::Config::new())
                    .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
                let transport = transport.or_transport(tcp::tokio::Transport::new(tcp::Config::new()).and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket)));
"""), (PE, "                    .upgrade(Version::V1Lazy)\n                    .authenticate(auth)\n", "                    .or_transport(tcp::tokio::Transport::new(tcp::Config::new()))\n                    .map(|either, _| either)\n                    .upgrade(Version::V1Lazy)\n                    .authenticate(auth)\n"))
bug("c09-fixed-key", "C09", (PE, "PreSharedKey::new(Self::passphrase_to_bytes(&passphrase))", "PreSharedKey::new(Self::passphrase_to_bytes(DEFAULT_PASSPHRASE))"))
bug("c09-short-secret", "C09", (PE, "            passphrase.as_bytes(),\n", "            &passphrase.as_bytes()[..4.min(passphrase.len())],\n"))
bug("c09-key-unused", "C09", (PE, "        let mut key = [0u8; 32];\n", "        let mut key = [0u8; 32];\n        let mut derived = [0u8; 32];\n"), (PE, "            &mut key,\n        );\n        key\n", "            &mut derived,\n        );\n        key[0] = 1;\n        key\n"))
bug("c09-file-ignored", "C09", (PE, '                passphrase: general_section.get("secret").map(|p| p.to_string()),', "                passphrase: None,"))
bug("c09-lost-in-merge", "C09", (PE, "            passphrase: self.passphrase.or(other.passphrase),", "            passphrase: self.passphrase.and(other.passphrase),"))
bug("c09-short-default", "C09", (PE, "            .unwrap_or(DEFAULT_PASSPHRASE.to_string());", "            .filter(|p| p.len() >= 8)\n            .unwrap_or(DEFAULT_PASSPHRASE.to_string());"))
bug("c09-no-warning", "C09", (PE, "        if is_default_passphrase {\n            warn!(", "        if is_default_passphrase && !self.connection_info.is_host() {\n            warn!("))
bug("c09-debug-warning", "C09", (PE, "            warn!(\"\\n\\n\\tSECURITY", "            debug!(\"\\n\\n\\tSECURITY"))
bug("c09-join-default", "C09", (MA, "                peer_connection_info = peer_connection_info.takes_precedence_over(config_from_file);", "                let joins = !peer_connection_info.is_host();\n                peer_connection_info = peer_connection_info.takes_precedence_over(config_from_file);\n                if joins {\n                    peer_connection_info.passphrase = None;\n                }"))
same("c09-match", (PE, """        let passphrase = self
            .connection_info
            .passphrase
            .clone()
            .unwrap_or(DEFAULT_PASSPHRASE.to_string());
        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;
        if is_default_passphrase {
            warn!(""", """        let configured = self.connection_info.passphrase.clone();
        let is_default_passphrase = configured.is_none();
        let passphrase = match configured {
            Some(passphrase) => passphrase,
            None => DEFAULT_PASSPHRASE.to_string(),
        };
        if is_default_passphrase {
            warn!("""))
same("c09-transport-helper", (PE, TRANS + """                let auth = noise::Config::new(keypair)?;
                let mux = yamux::Config::default();

                let tcp_transport = transport
                    .upgrade(Version::V1Lazy)
                    .authenticate(auth)
                    .multiplex(mux);

                Ok(tcp_transport)
""", """                Self::transport(keypair, psk)
"""), (PE, "    /// Returns an existing keypair", """    fn transport(
        keypair: &Keypair,
        psk: pnet::PreSharedKey,
    ) -> std::result::Result<
        libp2p::core::transport::Boxed<(libp2p::PeerId, libp2p::core::muxing::StreamMuxerBox)>,
        Box<dyn std::error::Error + Send + Sync>,
    > {
        let auth = noise::Config::new(keypair)?;
        let pnet = pnet::PnetConfig::new(psk);
        let connected = tcp::tokio::Transport::new(tcp::Config::new().nodelay(true))
            .and_then(move |socket, _| pnet.handshake(socket));
        Ok(connected
            .upgrade(Version::V1Lazy)
            .authenticate(auth)
            .multiplex(yamux::Config::default())
            .boxed())
    }

    /// Returns an existing keypair"""))
same("c09-psk-outside", (PE, "        let mut swarm = libp2p::SwarmBuilder", "        let psk = pnet::PreSharedKey::new(Self::passphrase_to_bytes(&passphrase));\n        let mut swarm = libp2p::SwarmBuilder"), (PE, """                self.connection_info.passphrase = Some(passphrase.clone());

                let psk = pnet::PreSharedKey::new(Self::passphrase_to_bytes(&passphrase));

""", ""), (PE, "            .with_other_transport(|keypair| {", "            .with_other_transport(move |keypair| {"), (PE, "    pub async fn run(mut self)", "    pub async fn run(self)"))
bug("c12-log-info", "C12", (PE, "#[derive(Clone)]\npub struct PeerConnectionInfo", "#[derive(Clone, Debug)]\npub struct PeerConnectionInfo"), (MA, '            info!("Starting Ethersync on {}", directory.display());', '            info!("Starting Ethersync on {}", directory.display());\n            tracing::debug!("Settings: {:?}", peer_connection_info);'))
bug("c12-invite", "C12", (PE, '" (They need put secret = <your-secret> in the .ethersync/config file.)"', '&format!(" (They need put secret = {passphrase} in the .ethersync/config file.)")'), (PE, """                            ""
                        } else {""", """                            ""
                        } else {"""))
bug("c12-short-panics", "C12", (PE, "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n", "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n        assert!(passphrase.len() >= 4, \"The secret '{passphrase}' is too short\");\n"))
bug("c12-bail", "C12", (PE, "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n", "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n        if passphrase.contains('\\n') {\n            bail!(\"Invalid secret: {passphrase}\");\n        }\n"))
bug("c12-cli", "C12", (MA, "        /// Initialize the current contents", "        /// Shared secret.\n        #[arg(long)]\n        secret: Option<String>,\n        /// Initialize the current contents"), (MA, "            port,\n            init,\n        } => {", "            port,\n            secret,\n            init,\n        } => {"), (MA, "                passphrase: None,", "                passphrase: secret,"))
bug("c12-key-copy", "C12", (PE, '            file.write_all(&bytes).expect("Failed to write to key file");\n', '            file.write_all(&bytes).expect("Failed to write to key file");\n            let _ = std::fs::write(self.base_dir.join(".ethersync").join("identity"), &bytes);\n'))
bug("c12-psk-debug", "C12", (PE, "                let transport = tcp::tokio", "                debug!(\"Using key {}\", psk);\n                let transport = tcp::tokio"))
bug("c12-helper-logs", "C12", (PE, "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n", "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n        Self::describe(&passphrase);\n"), (PE, "    /// Returns an existing keypair", "    fn describe(passphrase: &str) {\n        let shown: String = passphrase.chars().take(3).collect();\n        info!(\"Using a secret that starts with {shown}\");\n    }\n\n    /// Returns an existing keypair"))
bug("c12-config-logged", "C12", (PE, "            let general_section = conf.general_section();", "            let general_section = conf.general_section();\n            for (key, value) in general_section.iter() {\n                debug!(\"Setting {key} = {value}\");\n            }"))
bug("c12-key-bytes-logged", "C12", (PE, '            Keypair::from_protobuf_encoding(&bytes).expect("Failed to deserialize key file")', '            Keypair::from_protobuf_encoding(&bytes)\n                .unwrap_or_else(|_| panic!("Failed to deserialize key file: {:?}", bytes))'))
bug("c12-print", "C12", (PE, "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n", "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n        if !is_default_passphrase {\n            println!(\"secret = {}\", passphrase);\n        }\n"))
same("c12-length-logged", (PE, "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n", "        let is_default_passphrase = passphrase == DEFAULT_PASSPHRASE;\n        debug!(\"The secret has {} characters\", passphrase.len());\n"))
same("c12-settings-logged", (MA, '            info!("Starting Ethersync on {}", directory.display());', '            info!("Starting Ethersync on {}", directory.display());\n            tracing::debug!("Peer: {:?}, port: {:?}, secret: {}", peer_connection_info.peer, peer_connection_info.port, peer_connection_info.passphrase.is_some());'))
same("c12-peer-id-logged", (PE, "        let mut swarm = libp2p::SwarmBuilder", "        debug!(\"We are {}\", keypair.public().to_peer_id());\n        let mut swarm = libp2p::SwarmBuilder"))
same("c12-key-helper", (PE, """            let mut file = OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .mode(0o600)
                .open(keyfile)
                .expect("Should have been able to create key file that did not exist before");
            file.write_all(&bytes).expect("Failed to write to key file");

            keypair""", """            Self::write_key(&keyfile, &bytes);
            keypair"""), (PE, "    // This \"stretches\"", """    fn write_key(keyfile: &Path, bytes: &[u8]) {
        let mut file = OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .mode(0o600)
            .open(keyfile)
            .expect("Should have been able to create key file that did not exist before");
        file.write_all(bytes).expect("Failed to write to key file");
    }

    // This \"stretches\""""))


# -- C25 -----------------------------------------------------------------------
bug("c25-ensure-states", "C25", (DO, """        let state_map = self
            .top_level_map_obj("states")
            .expect("Failed to get states Map object");
        let user_obj""", """        let state_map = self.top_level_map_obj("states").unwrap_or_else(|_| {
            self.doc
                .put_object(automerge::ROOT, "states", ObjType::Map)
                .expect("Failed to create states Map object")
        });
        let user_obj"""))
bug("c25-initialize-files", "C25", (DO, """        let file_map = self
            .top_level_map_obj("files")
            .expect("Failed to get files Map object");

        let text_obj""", """        let file_map = match self.top_level_map_obj("files") {
            Ok(file_map) => file_map,
            Err(_) => self
                .doc
                .put_object(automerge::ROOT, "files", ObjType::Map)
                .expect("Failed to create files Map object"),
        };

        let text_obj"""))
bug("c25-empty-default", "C25", (DO, "        Self::load(&initial_doc)\n", "        let _ = initial_doc;\n        let mut doc = AutoCommit::new();\n        doc.put_object(automerge::ROOT, \"files\", ObjType::Map)\n            .expect(\"Failed to set up document\");\n        doc.put_object(automerge::ROOT, \"states\", ObjType::Map)\n            .expect(\"Failed to set up document\");\n        Self { doc }\n"))
bug("c25-damaged-empty", "C25", (DO, "        let mut doc = Self::default().doc;\n        doc.load_incremental(bytes)", "        let mut doc = AutoCommit::new();\n        doc.load_incremental(bytes)"))
bug("c25-version", "C25", (DO, "        Self::load(&initial_doc)\n", "        let mut initial = Self::load(&initial_doc);\n        initial\n            .doc\n            .put(automerge::ROOT, \"version\", 1)\n            .expect(\"Failed to set version\");\n        initial\n"))
bug("c25-actor", "C25", (DO, "        Self { doc }\n", "        let mut doc = doc;\n        doc.set_actor(automerge::ActorId::from(b\"ethersync\"));\n        Self { doc }\n"))
bug("c25-other-bytes", "C25", (DO, "16, 120, 107, 104, 47, 215, 9, 76, 32,", "16, 121, 107, 104, 47, 215, 9, 76, 32,"), (DO, "1, 143, 164, 31, 13, 102,", "1, 143, 164, 31, 14, 102,"))
bug("c25-helper", "C25", (DO, "    fn top_level_map_obj", "    fn ensure(&mut self, name: &str) {\n        if self.top_level_map_obj(name).is_err() {\n            self.put_map(automerge::ROOT, name);\n        }\n    }\n\n    fn put_map(&mut self, parent: automerge::ObjId, name: &str) {\n        let _ = self.doc.put_object(parent, name, ObjType::Map);\n    }\n\n    fn top_level_map_obj"), (DO, '        info!("Initializing {file_path} in CRDT.");\n', '        info!("Initializing {file_path} in CRDT.");\n        self.ensure("files");\n'))
same("c25-const", (DO, "        let initial_doc = [", "        const INITIAL_DOC: [u8; 128] = ["), (DO, "        Self::load(&initial_doc)\n", "        Self::load(&INITIAL_DOC)\n"))
same("c25-static-outside", (DO, "        let initial_doc = [", "        static INITIAL_DOC: &[u8] = &["), (DO, "        Self::load(&initial_doc)\n", "        Self::load(INITIAL_DOC)\n"))
same("c25-incremental", (DO, "        Self::load(&initial_doc)\n", "        let mut doc = AutoCommit::new();\n        doc.load_incremental(&initial_doc)\n            .expect(\"Failed to load initial document\");\n        Self { doc }\n"))
same("c25-put-helper", (DO, """        let text_obj = self
            .doc
            .put_object(file_map, file_path, ObjType::Text)
            .expect("Failed to initialize text object in Automerge document");
        self.doc""", """        let text_obj = self.put_text(file_map, file_path);
        self.doc"""), (DO, "    fn top_level_map_obj", "    fn put_text(&mut self, parent: automerge::ObjId, name: &RelativePath) -> automerge::ObjId {\n        self.doc\n            .put_object(parent, name, ObjType::Text)\n            .expect(\"Failed to initialize text object in Automerge document\")\n    }\n\n    fn top_level_map_obj"))


# -- C26 -----------------------------------------------------------------------
bug("c26-len", "C26", (DA, "                let editor_connection_id = self.cursor_id(id);\n", "                let editor_connection_id = self.cursor_id(self.editor_connections.len());\n"))
bug("c26-no-actor", "C26", (DA, '        self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()', '        format!("editor-{editor_id}")'))
bug("c26-no-editor", "C26", (DA, '        self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()', '        let _ = editor_id;\n        self.crdt_doc.actor_id()'))
bug("c26-short-actor", "C26", (DA, '        self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()', '        self.crdt_doc.actor_id()[..2].to_string() + "-" + editor_id.to_string().as_str()'))
bug("c26-mod", "C26", (DA, "self.next_id.fetch_add(1, Ordering::Relaxed)", "self.next_id.fetch_add(1, Ordering::Relaxed) % 8"))
bug("c26-load", "C26", (DA, "self.next_id.fetch_add(1, Ordering::Relaxed)", "self.next_id.load(Ordering::Relaxed)"))
bug("c26-new-counter", "C26", (DA, "self.next_id.fetch_add(1, Ordering::Relaxed)", "AtomicUsize::default().fetch_add(1, Ordering::Relaxed)"))
bug("c26-once", "C26", (ED, """    loop {
        let (stream, _addr) = listener.accept().await?;

        let id = document_handle.next_editor_id();
""", """    let id = document_handle.next_editor_id();
    loop {
        let (stream, _addr) = listener.accept().await?;
"""))
bug("c26-close-on-none", "C26", (ED, """        while let Some(Ok(line)) = reader.next().await {
            document_handle
                .send_message(DocMessage::FromEditor(editor_id, line))
                .await;
        }
""", """        while let Some(result) = reader.next().await {
            let Ok(line) = result else {
                return;
            };
            document_handle
                .send_message(DocMessage::FromEditor(editor_id, line))
                .await;
        }
"""))
bug("c26-close-other", "C26", (ED, "DocMessage::CloseEditorConnection(editor_id)", "DocMessage::CloseEditorConnection(document_handle.next_editor_id())"))
bug("c26-not-removed", "C26", (DA, "                self.remove_editor_connection(&editor_id);\n\n                let cursor_id", "                let cursor_id"))
bug("c26-not-cleared", "C26", (DA, "        self.crdt_doc.maybe_delete_cursor_position(cursor_id);\n        let _ = self.doc_changed_ping_tx.send(());\n", ""))
bug("c26-not-told", "C26", (DA, "                self.maybe_delete_cursor_position(&cursor_id).await;\n", "                self.crdt_doc.maybe_delete_cursor_position(&cursor_id);\n                let _ = self.doc_changed_ping_tx.send(());\n"))
bug("c26-only-if-known", "C26", (DA, """                self.remove_editor_connection(&editor_id);

                let cursor_id = self.cursor_id(editor_id);
                debug!("Deleting cursor {cursor_id}");
                self.maybe_delete_cursor_position(&cursor_id).await;
""", """                if self.editor_connections.contains_key(&editor_id) {
                    self.remove_editor_connection(&editor_id);

                    let cursor_id = self.cursor_id(editor_id);
                    debug!("Deleting cursor {cursor_id}");
                    self.maybe_delete_cursor_position(&cursor_id).await;
                }
"""))
bug("c26-other-name", "C26", (DA, "                let cursor_id = self.cursor_id(editor_id);\n                debug!", "                let cursor_id = format!(\"{}_{}\", self.crdt_doc.actor_id(), editor_id);\n                debug!"))
bug("c26-told-without-id", "C26", (DA, "                cursor_id: cursor_id.to_string(),\n                name: None,", "                cursor_id: self.crdt_doc.actor_id(),\n                name: None,"))
bug("c26-user-name", "C26", (EC, "                        cursor_id: self.id.clone(),\n                        name: env::var(\"USER\").ok(),", "                        cursor_id: env::var(\"USER\").unwrap_or_else(|_| self.id.clone()),\n                        name: env::var(\"USER\").ok(),"))
bug("c26-ranges-kept", "C26", (DO, "            self.store_cursor_position(cursor_id, None, &file_path, vec![]);", "            let position = crate::types::Position { line: 0, character: 0 };\n            self.store_cursor_position(\n                cursor_id,\n                None,\n                &file_path,\n                vec![Range { start: position.clone(), end: position }],\n            );"))
bug("c26-store-name", "C26", (DO, "            .put_object(state_map, cursor_id, ObjType::Text)", "            .put_object(state_map, name.as_deref().unwrap_or(cursor_id), ObjType::Text)"))
bug("c26-select", "C26", (ED, """        document_handle
            .send_message(DocMessage::CloseEditorConnection(editor_id))
            .await;
        info!("Client #{editor_id} disconnected");
""", """        let _ = document_handle.send_message(DocMessage::CloseEditorConnection(editor_id));
        info!("Client #{editor_id} disconnected");
"""))
same("c26-format", (DA, '        self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()', '        format!("{}-{}", self.crdt_doc.actor_id(), editor_id)'))
same("c26-local-counter", (ED, """    loop {
        let (stream, _addr) = listener.accept().await?;

        let id = document_handle.next_editor_id();

        spawn_editor_connection(stream, document_handle.clone(), id);
    }""", """    let mut id = 0;
    loop {
        let (stream, _addr) = listener.accept().await?;

        spawn_editor_connection(stream, document_handle.clone(), id);
        id += 1;
    }"""))
same("c26-id-in-spawn", (ED, """        let id = document_handle.next_editor_id();

        spawn_editor_connection(stream, document_handle.clone(), id);""", """        spawn_editor_connection(stream, document_handle.clone());"""), (ED, "    document_handle: DocumentActorHandle,\n    editor_id: EditorId,\n) {\n", "    document_handle: DocumentActorHandle,\n) {\n    let editor_id: EditorId = document_handle.next_editor_id();\n"))
same("c26-close-order", (DA, """                self.remove_editor_connection(&editor_id);

                let cursor_id = self.cursor_id(editor_id);
                debug!("Deleting cursor {cursor_id}");
                self.maybe_delete_cursor_position(&cursor_id).await;
""", """                let cursor_id = self.cursor_id(editor_id);
                debug!("Deleting cursor {cursor_id}");
                self.maybe_delete_cursor_position(&cursor_id).await;

                self.remove_editor_connection(&editor_id);
"""))
same("c26-inline", (DA, """                self.remove_editor_connection(&editor_id);

                let cursor_id = self.cursor_id(editor_id);
                debug!("Deleting cursor {cursor_id}");
                self.maybe_delete_cursor_position(&cursor_id).await;
""", """                self.close_editor_connection(editor_id).await;
"""), (DA, "    fn absolute_path_for_file_path", """    async fn close_editor_connection(&mut self, editor_id: EditorId) {
        self.remove_editor_connection(&editor_id);
        let cursor_id = self.cursor_id(editor_id);
        debug!("Deleting cursor {cursor_id}");
        self.maybe_delete_cursor_position(&cursor_id).await;
    }

    fn absolute_path_for_file_path"""))
same("c26-loop-match", (ED, """        while let Some(Ok(line)) = reader.next().await {
            document_handle
                .send_message(DocMessage::FromEditor(editor_id, line))
                .await;
        }
""", """        loop {
            match reader.next().await {
                Some(Ok(line)) => {
                    document_handle
                        .send_message(DocMessage::FromEditor(editor_id, line))
                        .await;
                }
                Some(Err(_)) | None => break,
            }
        }
"""))


# -- C24 ---------------------------------------------------------------------------------
bug("c24-no-guard", "C24", (DA, """                if !self.editor_connections.contains_key(&editor_id) {
                    debug!("Ignoring message from editor #{editor_id}, which was removed already");
                    return;
                }
                self.handle""", """                self.handle"""))
bug("c24-guard-only-logs", "C24", (DA, """which was removed already");
                    return;
                }
                self.handle""", """which was removed already");
                }
                self.handle"""))
bug("c24-send-expects", "C24", (DA, """        let Some(connection) = self.editor_connections.get_mut(editor_id) else {
            debug!("Not sending to editor #{editor_id}, which was removed already");
            return;
        };
""", """        let connection = self.editor_connections.get_mut(editor_id).expect("Could not get editor handle");
"""))
bug("c24-send-fails", "C24", (DA, """        connection.1.send(message).await.unwrap_or_else(|err| {
            error!("Failed to send message to editor: {err} Removing editor.");
            self.remove_editor_connection(editor_id);
        });
""", """        connection.1.send(message).await.expect("Failed to send message to editor");
"""))
bug("c24-send-panics-for-some", "C24", (DA, """            error!("Failed to send message to editor: {err} Removing editor.");
""", """            assert!(err.to_string().contains("roken"), "Failed to send message to editor: {err}");
"""))
bug("c24-broadcast-expects-again", "C24", (DA, """                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
            }
        }
    }
""", """                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
                let connection = self.editor_connections.get(&editor_id).expect("Could not get editor connection");
                debug!("Editor owns {} files", connection.0.open_files().count());
            }
        }
    }
"""))
bug("c24-index", "C24", (DA, """                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
            }
        }
    }
""", """                self.send_to_editor_client(
                    &editor_id,
                    EditorProtocolObject::Request(message_to_editor),
                )
                .await;
                debug!("Editor owns {} files", self.editor_connections[&editor_id].0.open_files().count());
            }
        }
    }
"""))
bug("c24-react-after", "C24", (DA, """        self.inside_message_to_doc(&inside_message).await;
        self.broadcast_to_editors(Some(editor_id), &inside_message)
            .await;
        for message_to_editor in messages_to_editor {
            self.send_to_editor_client(
                &editor_id,
                EditorProtocolObject::Request(message_to_editor),
            )
            .await;
        }
""", """        self.inside_message_to_doc(&inside_message).await;
        self.broadcast_to_editors(Some(editor_id), &inside_message)
            .await;
        for message_to_editor in messages_to_editor {
            self.send_to_editor_client(
                &editor_id,
                EditorProtocolObject::Request(message_to_editor),
            )
            .await;
        }
        let connection = self.editor_connections.get(&editor_id).unwrap();
        debug!("Editor owns {} files", connection.0.open_files().count());
"""))
bug("c24-remove-all-failed", "C24", (DA, """        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
            for""", """        self.editor_connections.retain(|id, _| id <= editor_id);
        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
            for"""))
bug("c24-remove-unknown", "C24", (DA, """        if let Some((connection, _)) = self.editor_connections.remove(editor_id) {
            for file_path in connection.open_files() {
                self.maybe_write_file(file_path);
            }
        }
""", """        let (connection, _) = self
            .editor_connections
            .remove(editor_id)
            .expect("Editor should have been connected");
        for file_path in connection.open_files() {
            self.maybe_write_file(file_path);
        }
"""))
bug("c24-close-unknown", "C24", (DA, """                self.remove_editor_connection(&editor_id);
""", """                let owned = self.editor_connections.get(&editor_id).map(|c| c.0.open_files().count());
                debug!("Closing {} files", owned.expect("Editor should be connected"));
                self.remove_editor_connection(&editor_id);
"""))
bug("c24-parse", "C24", (DA, """        match JSONRPCFromEditor::from_jsonrpc(&message) {
            Ok(parsed_message) => match parsed_message {""", """        match Ok::<_, anyhow::Error>(JSONRPCFromEditor::from_jsonrpc(&message).expect("Failed to parse")) {
            Ok(parsed_message) => match parsed_message {"""))
bug("c24-parse-deep", "C24", (TY, """        let message = serde_json::from_str(jsonrpc)?;
""", """        let message = serde_json::from_str(jsonrpc)
            .inspect_err(|e| assert!(!e.is_eof(), "Incomplete message"))?;
"""))
bug("c24-parse-unreachable", "C24", (DA, """            Err(e) => {
                let response = JSONRPCResponse::RequestError {
                    id: None,""", """            Err(e) if message.is_empty() => unreachable!("Empty message: {e}"),
            Err(e) => {
                let response = JSONRPCResponse::RequestError {
                    id: None,"""))
bug("c24-reader", "C24", (ED, """        while let Some(Ok(line)) = reader.next().await {
""", """        while let Some(line) = reader.next().await {
            let line = line.expect("Failed to read a line");
"""))
bug("c24-edit-deleted", "C24", (DA, """                if !self.crdt_doc.file_exists(file_path) {
                    warn!("Ignoring edit of {file_path}, which was deleted in the meantime");
                    return;
                }
""", ""))
bug("c24-edit-other-file", "C24", (DA, """                if !self.crdt_doc.file_exists(file_path) {
                    warn!""", """                if self.crdt_doc.files().is_empty() {
                    warn!"""))
bug("c24-close-deleted", "C24", (DA, """            ComponentMessage::Close { file_path } => {
""", """            ComponentMessage::Close { file_path } => {
                let content = self.current_file_content(file_path).expect("Closed file should exist");
                debug!("Closing file with {} characters", content.len());
"""))
bug("c24-write-deleted", "C24", (DA, """            if let Ok(text) = self.current_file_content(file_path) {
""", """            if let Some(text) = Some(self.current_file_content(file_path).unwrap()) {
"""))
bug("c24-remove-twice", "C24", ("daemon/src/document.rs", """        if self.text_obj(file_path).is_err() {
            debug!("Failed to get {file_path} Text object, so I can't remove it from the CRDT");
            return;
        };
""", """        let text_obj = self.text_obj(file_path).expect("Removed file should exist");
        debug!("Removing {text_obj}");
"""))
bug("c24-unopened", "C24", (EC, """                if self.ot_servers.get_mut(&relative_path).is_none() {
                    return Err""", """                if self.ot_servers.is_empty() {
                    return Err"""))
bug("c24-unopened-close", "C24", (EC, """                self.ot_servers.remove(&relative_path);
""", """                self.ot_servers
                    .remove(&relative_path)
                    .expect("Could not find OT server.");
"""))
bug("c24-uri-prefix", "C24", (PA, 'if string.starts_with("file:///") {', 'if string.starts_with("file://") {'))
bug("c24-uri-unchecked", "C24", (EC, """            EditorProtocolMessageFromEditor::Close { uri } => {
                let uri = FileUri::try_from(uri.clone()).map_err(anyhow_err_to_protocol_err)?;
                let absolute_path = uri.to_absolute_path();
""", """            EditorProtocolMessageFromEditor::Close { uri } => {
                let absolute_path = AbsolutePath::try_from(uri.trim_start_matches("file://")).expect("URI should contain an absolute path");
"""))
bug("c24-loop-ends", "C24", (DA, """                if !self.editor_connections.contains_key(&editor_id) {
                    debug!""", """                if self.editor_connections.is_empty() {
                    std::process::exit(0);
                }
                if !self.editor_connections.contains_key(&editor_id) {
                    debug!"""))
same("c24-broadcast-skips", (DA, """            let messages_to_editor = self
                .editor_connections
                .get_mut(&editor_id)
                .expect("Could not get editor connection")
                .0
                .message_from_daemon(message);
""", """            let Some(connection) = self.editor_connections.get_mut(&editor_id) else {
                continue;
            };
            let messages_to_editor = connection.0.message_from_daemon(message);
"""))
same("c24-react-guarded", (DA, """        let (inside_message, messages_to_editor) = self
            .editor_connections
            .get_mut(&editor_id)
            .expect("Could not get editor connection")
            .0
            .message_from_editor(message)?;
""", """        let Some((connection, _)) = self.editor_connections.get_mut(&editor_id) else {
            return Err(EditorProtocolMessageError {
                code: -1,
                message: "Editor is not connected".into(),
                data: None,
            });
        };
        let (inside_message, messages_to_editor) = connection.message_from_editor(message)?;
"""))
same("c24-guard-in-handler", (DA, """                if !self.editor_connections.contains_key(&editor_id) {
                    debug!("Ignoring message from editor #{editor_id}, which was removed already");
                    return;
                }
                self.handle""", """                self.handle"""), (DA, """    async fn handle_message_from_editor(&mut self, editor_id: EditorId, message: String) {
""", """    async fn handle_message_from_editor(&mut self, editor_id: EditorId, message: String) {
        if self.editor_connections.get(&editor_id).is_none() {
            return;
        }
"""))
same("c24-snapshot-helper", (DA, """        let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
        for editor_id in editor_ids {
            if Some(editor_id) == exclude_id {
                continue;
            }
""", """        let editor_ids = self.other_editors(exclude_id);
        for editor_id in editor_ids {
"""), (DA, """    async fn broadcast_to_editors(""", """    fn other_editors(&self, exclude_id: Option<EditorId>) -> Vec<EditorId> {
        self.editor_connections.keys().copied().filter(|id| Some(*id) != exclude_id).collect()
    }

    async fn broadcast_to_editors("""))
same("c24-send-match", (DA, """        connection.1.send(message).await.unwrap_or_else(|err| {
            error!("Failed to send message to editor: {err} Removing editor.");
            self.remove_editor_connection(editor_id);
        });
""", """        if let Err(err) = connection.1.send(message).await {
            error!("Failed to send message to editor: {err} Removing editor.");
            self.remove_editor_connection(editor_id);
        }
"""))
same("c24-edit-guard-in-doc", (DA, """                if !self.crdt_doc.file_exists(file_path) {
                    warn!""", """                if self.current_file_content(file_path).is_err() {
                    warn!"""))
same("c24-unopened-else", (EC, """                if self.ot_servers.get_mut(&relative_path).is_none() {
                    return Err(EditorProtocolMessageError {
                        code: -1,
                        message: "File not found".into(),
                        data: Some(
                            "Please stop sending edits for this file or 'open' it before.".into(),
                        ),
                    });
                }

                let ot_server = self
                    .ot_servers
                    .get_mut(&relative_path)
                    .expect("Could not find OT server.");
""", """                let Some(ot_server) = self.ot_servers.get_mut(&relative_path) else {
                    return Err(EditorProtocolMessageError {
                        code: -1,
                        message: "File not found".into(),
                        data: Some(
                            "Please stop sending edits for this file or 'open' it before.".into(),
                        ),
                    });
                };
"""))
same("c24-uri-early", (PA, """        if string.starts_with("file:///") {
            Ok(Self(string.to_string()))
        } else {
            bail!("File URI '{}' does not start with 'file:///'", string);
        }
""", """        if !string.starts_with("file:///") {
            bail!("File URI '{}' does not start with 'file:///'", string);
        }
        Ok(Self(string))
"""))

# -- C27: framing
JF = D + "jsonrpc_forwarder.rs" if D.endswith("/") else D + "/jsonrpc_forwarder.rs"
CLEN = """        let content_length = item.len();
"""
bug("c27-chars", "C27", (JF, CLEN, """        let content_length = item.chars().count();
"""))
bug("c27-len-plus", "C27", (JF, CLEN, """        let content_length = item.len() + 1;
"""))
bug("c27-one-crlf", "C27", (JF, """Content-Length: {}\\r\\n\\r\\n""", """Content-Length: {}\\r\\n"""))
bug("c27-trim", "C27", (JF, """dst.extend_from_slice(item.as_bytes());""", """dst.extend_from_slice(item.trim_end().as_bytes());"""))
bug("c27-body-first", "C27", (JF, """        dst.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", content_length).as_bytes());
        dst.extend_from_slice(item.as_bytes());
""", """        dst.extend_from_slice(item.as_bytes());
        dst.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", content_length).as_bytes());
"""))
bug("c27-no-newline", "C27", (ED, """format!("{payload}\\n")""", """format!("{payload}")"""))
bug("c27-two-newlines", "C27", (ED, """format!("{payload}\\n")""", """format!("{payload}\\n\\n")"""))
bug("c27-pretty", "C27", (TY, """serde_json::to_string(&map)?""", """serde_json::to_string_pretty(&map)?"""))
bug("c27-drop-result", "C27", (TY, """            map.insert("jsonrpc".to_string(), "2.0".into());
""", """            map.insert("jsonrpc".to_string(), "2.0".into());
            map.remove("params");
"""))
bug("c27-advance-early", "C27", (JF, """        if src.len() < content_start + content_length {
            return Ok(None);
        }

        // Return the body of the message.
        src.advance(content_start);
        let content""", """        src.advance(content_start);
        if src.len() < content_length {
            return Ok(None);
        }

        // Return the body of the message.
        let content"""))
bug("c27-off-by-one", "C27", (JF, """if src.len() < content_start + content_length {""", """if src.len() <= content_start + content_length {"""))
bug("c27-only-content", "C27", (JF, """if src.len() < content_start + content_length {""", """if src.len() < content_length {"""))
bug("c27-sep-from-zero", "C27", (JF, """        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
            .windows(4)""", """        let (end_of_line, end_of_line_bytes) = match src
            .windows(4)"""))
bug("c27-sep-two", "C27", (JF, """            Some(pos) => (pos, 4),
""", """            Some(pos) => (pos, 2),
"""))
bug("c27-no-crlf", "C27", (JF, """.position(|window| window == b"\\r\\n\\r\\n")""", """.position(|window| window == b"\\n\\n\\n\\n")"""))
bug("c27-lossy-start", "C27", (JF, """        let content_start = start_of_header + c.len() + end_of_line + end_of_line_bytes;
""", """        let content_start = c.len() + end_of_line + end_of_line_bytes;
"""))
bug("c27-peek", "C27", (JF, """        let content = src.split_to(content_length);
""", """        let content = src[..content_length].to_vec();
"""))
bug("c27-clear", "C27", (JF, """        let content = src.split_to(content_length);
""", """        let content = src.split_to(content_length);
        src.clear();
"""))
bug("c27-clear-waiting", "C27", (JF, """        if src.len() < content_start + content_length {
            return Ok(None);
""", """        if src.len() < content_start + content_length {
            src.clear();
            return Ok(None);
"""))
bug("c27-trim-body", "C27", (JF, """std::str::from_utf8(&content)?.to_string()""", """std::str::from_utf8(&content)?.trim().to_string()"""))
bug("c27-lossy", "C27", (JF, """Ok(Some(std::str::from_utf8(&content)?.to_string()))""", """Ok(Some(String::from_utf8_lossy(&content).replace('\\u{feff}', "")))"""))
bug("c27-feed", "C27", (JF, """        socket_write.send(message).await?;
""", """        socket_write.feed(message).await?;
"""))
bug("c27-skip-empty", "C27", (JF, """        socket_write.send(message).await?;
""", """        if message.contains("method") {
            socket_write.send(message).await?;
        }
"""))
bug("c27-spawn-send", "C27", (JF, """            stdout
                .send(message)
                .await
                .expect("Failed to write to stdout");
""", """            stdout
                .send(message.trim().to_string())
                .await
                .expect("Failed to write to stdout");
"""))
bug("c27-max-length", "C27", (JF, """FramedRead::new(socket_read, LinesCodec::new())""", """FramedRead::new(socket_read, LinesCodec::new_with_max_length(65536))"""))
bug("c27-lines-out", "C27", (JF, """FramedWrite::new(BufWriter::new(tokio::io::stdout()), ContentLengthCodec)""", """FramedWrite::new(BufWriter::new(tokio::io::stdout()), LinesCodec::new())"""))
bug("c27-once", "C27", (JF, """        while let Some(Ok(message)) = socket_read.next().await {""", """        if let Some(Ok(message)) = socket_read.next().await {"""))
same("c27-write-parts", (JF, """        dst.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", content_length).as_bytes());
""", """        dst.extend_from_slice(b"Content-Length: ");
        dst.extend_from_slice(content_length.to_string().as_bytes());
        dst.extend_from_slice(b"\\r\\n\\r\\n");
"""))
same("c27-one-format", (JF, """        dst.extend_from_slice(format!("Content-Length: {}\\r\\n\\r\\n", content_length).as_bytes());
        dst.extend_from_slice(item.as_bytes());
""", """        let framed = format!("Content-Length: {content_length}\\r\\n\\r\\n{item}");
        dst.extend_from_slice(framed.as_bytes());
"""))
same("c27-reserve", (JF, CLEN, """        let content_length = item.as_bytes().len();
        dst.reserve(content_length + 32);
"""))
same("c27-newline-apart", (ED, """        dst.extend_from_slice(format!("{payload}\\n").as_bytes());
""", """        dst.extend_from_slice(payload.as_bytes());
        dst.extend_from_slice(b"\\n");
"""))
same("c27-helper-find", (JF, """        let start_of_header = match src.windows(c.len()).position(|window| window == c) {
            Some(pos) => pos,
            None => return Ok(None),
        };
""", """        let Some(start_of_header) = find(src, c) else {
            return Ok(None);
        };
"""), (JF, """struct ContentLengthCodec;
""", """fn find(haystack: &[u8], needle: &[u8]) -> Option<usize> {
    haystack.windows(needle.len()).position(|window| window == needle)
}

struct ContentLengthCodec;
"""))
same("c27-after-header", (JF, """        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
""", """        let after_header = start_of_header + c.len();
        let (end_of_line, end_of_line_bytes) = match src[after_header..]
"""))
same("c27-guard-swapped", (JF, """        if src.len() < content_start + content_length {
            return Ok(None);
        }

        // Return the body of the message.
        src.advance(content_start);
        let content = src.split_to(content_length);
        Ok(Some(std::str::from_utf8(&content)?.to_string()))
""", """        let content_end = content_start + content_length;
        if content_end > src.len() {
            Ok(None)
        } else {
            // Return the body of the message.
            let message = src.split_to(content_end);
            Ok(Some(std::str::from_utf8(&message[content_start..])?.to_string()))
        }
"""), (JF, """.parse()?;""", """.parse::<usize>()?;"""))
same("c27-loop-match", (JF, """    while let Some(Ok(message)) = stdin.next().await {
        socket_write.send(message).await?;
    }
""", """    loop {
        match stdin.next().await {
            Some(Ok(message)) => socket_write.send(message).await?,
            _ => break,
        }
    }
"""))
same("c27-forward-helper", (JF, """    tokio::spawn(async move {
        while let Some(Ok(message)) = socket_read.next().await {
            stdout
                .send(message)
                .await
                .expect("Failed to write to stdout");
        }
        // Socket was closed.
        std::process::exit(0);
    });
""", """    tokio::spawn(async move {
        loop {
            let Some(Ok(message)) = socket_read.next().await else {
                // Socket was closed.
                std::process::exit(0);
            };
            if let Err(err) = stdout.send(message).await {
                panic!("Failed to write to stdout: {err}");
            }
        }
    });
"""))

# -- C05: notifications
SPAWNP = """    let mut doc_changed_ping_rx = document_handle.subscribe_document_changes();

    document_handle.send_message(DocMessage::Persist).await;
"""
OKP = """            Ok(()) => {
                // The document has changed.
            }
"""
bug("c05-late-subscribe", "C05", (DA, SPAWNP, """    document_handle.send_message(DocMessage::Persist).await;

    let mut doc_changed_ping_rx = document_handle.subscribe_document_changes();
"""))
bug("c05-no-first-persist", "C05", (DA, SPAWNP, """    let mut doc_changed_ping_rx = document_handle.subscribe_document_changes();
"""))
bug("c05-debounce", "C05", (DA, """    loop {
        match doc_changed_ping_rx.recv().await {
""" + OKP, """    let mut last = std::time::Instant::now();
    loop {
        match doc_changed_ping_rx.recv().await {
            Ok(()) => {
                if last.elapsed() < Duration::from_secs(1) {
                    continue;
                }
                last = std::time::Instant::now();
            }
"""))
bug("c05-lagged-ends", "C05", (DA, """                debug!("Doc changed ping channel lagged (this is probably fine)");
            }
        }

        document_handle""", """                debug!("Doc changed ping channel lagged (this is probably fine)");
                doc_changed_ping_rx = document_handle.subscribe_document_changes();
                continue;
            }
        }

        document_handle"""))
bug("c05-other-channel", "C05", (DA, """        Self {
            doc_message_tx,
            doc_changed_ping_tx,
""", """        let (doc_changed_ping_tx, _) = broadcast::channel::<()>(1);
        Self {
            doc_message_tx,
            doc_changed_ping_tx,
"""))
bug("c05-no-persister", "C05", (DA, """                spawn_persister(document_handle).await;
""", """                let _ = document_handle;
"""))
bug("c05-open-quiet", "C05", (DA, """                    let _ = self.doc_changed_ping_tx.send(());
                    text
""", """                    text
"""))
bug("c05-cursor-quiet", "C05", (DA, """                    ranges.clone(),
                );
                let _ = self.doc_changed_ping_tx.send(());
""", """                    ranges.clone(),
                );
"""))
bug("c05-persist-twice-only", "C05", (DA, """    loop {
        match doc_changed_ping_rx.recv().await {
""" + OKP, """    for _ in 0..1000 {
        match doc_changed_ping_rx.recv().await {
""" + OKP))
same("c05-lagged-continue", (DA, """                debug!("Doc changed ping channel lagged (this is probably fine)");
            }
        }

        document_handle""", """                debug!("Doc changed ping channel lagged (this is probably fine)");
                continue;
            }
        }

        document_handle"""))
same("c05-persist-helper", (DA, SPAWNP, """    let mut doc_changed_ping_rx = document_handle.subscribe_document_changes();

    request_save(&document_handle).await;
"""), (DA, """        document_handle.send_message(DocMessage::Persist).await;

        // Alt""", """        request_save(&document_handle).await;

        // Alt"""), (DA, """async fn spawn_persister(""", """async fn request_save(document_handle: &DocumentActorHandle) {
    document_handle.send_message(DocMessage::Persist).await;
}

async fn spawn_persister("""))
same("c05-notify-helper", (DA, """    async fn inside_message_to_doc(""", """    fn notify(&self) {
        let _ = self.doc_changed_ping_tx.send(());
    }

    async fn inside_message_to_doc("""), (DA, """                    ranges.clone(),
                );
                let _ = self.doc_changed_ping_tx.send(());
""", """                    ranges.clone(),
                );
                self.notify();
"""))

HANDLE = """            self.handle_message(message).await;
        }
        debug!("Channel towards"""
for prop, kind in (("C22", "FromWatcher(_)"), ("C06", "ReceiveSyncMessage { .. }"), ("C18", "Persist"), ("C24", "FromEditor(..)"), ("C07", "GenerateSyncMessage { .. }")):
    bug("loop-busy-%s" % prop.lower(), prop, (DA, HANDLE, """            if matches!(message, DocMessage::%s) && self.doc_message_rx.len() > 100 {
                continue;
            }
""" % kind + HANDLE))

bug("c14-open-not-created", "C14", (DA, """                    self.crdt_doc.initialize_text(&text, file_path);
                    let _ = self""", """                    let _ = self"""))
bug("c14-open-nothing", "C14", (DA, """                self.current_file_content(file_path).unwrap_or_else(|_| {
                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = String::new();
                    self.crdt_doc.initialize_text(&text, file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                    text
                });
""", """                debug!("Opened {file_path}");
"""))
same("c14-open-if", (DA, """                self.current_file_content(file_path).unwrap_or_else(|_| {
                    // The file doesn't exist yet - create it in the Automerge document.
                    let text = String::new();
                    self.crdt_doc.initialize_text(&text, file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                    text
                });
""", """                if !self.crdt_doc.file_exists(file_path) {
                    self.crdt_doc.initialize_text("", file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }
"""))

bug("c22-any-index", "C22", (WA, """                    {
                        if let Some(e) = self.maybe_created(&event.paths[0]) {""", """                    {
                        if let Some(e) = self.maybe_created(&event.paths[1]) {"""))
bug("c22-any-swapped", "C22", (WA, """                    if sandbox::exists(&self.base_dir, &event.paths[0])""", """                    if !sandbox::exists(&self.base_dir, &event.paths[0])"""))
bug("c22-count", "C22", (WA, """                    assert!(event.paths.len() == 2);
""", """                    assert!(event.paths.len() == 1);
"""))
bug("c22-count-data", "C22", (WA, """                    assert!(event.paths.len() == 1);
                    if let Some(e) = self.maybe_modified(""", """                    assert!(event.paths.len() > 1);
                    if let Some(e) = self.maybe_modified("""))

bug("c32-no-refusal", "C32", (MA, """                    directory.display()
                );
                return Ok(());
            }
""", """                    directory.display()
                );
            }
"""))
bug("c32-or", "C32", (MA, """.expect("Failed to check") && ethersync_dir.is_dir()""", """.expect("Failed to check") || ethersync_dir.is_dir()"""))
bug("c32-exists", "C32", (MA, """.expect("Failed to check") && ethersync_dir.is_dir()""", """.expect("Failed to check")"""))
bug("c32-current-dir", "C32", (MA, """            if !has_ethersync_directory(&directory) {""", """            if !has_ethersync_directory(&std::env::current_dir().expect("Could not access current directory")) {"""))
bug("c32-parent", "C32", (MA, """    let ethersync_dir = dir.join(ETHERSYNC_CONFIG_DIR);
""", """    let dir = dir.parent().unwrap_or(dir);
    let ethersync_dir = dir.join(ETHERSYNC_CONFIG_DIR);
"""))
bug("c32-only-joining", "C32", (MA, """            if !has_ethersync_directory(&directory) {""", """            if peer.is_none() && !has_ethersync_directory(&directory) {"""))
bug("c32-init", "C32", (MA, """            if !has_ethersync_directory(&directory) {""", """            if !init && !has_ethersync_directory(&directory) {"""))
same("c32-bail", (MA, """                    directory.display()
                );
                return Ok(());
            }
""", """                    directory.display()
                );
                anyhow::bail!("not shared");
            }
"""))
same("c32-before", (MA, """                .canonicalize()
                .expect("Could not access given directory");
            if !has_ethersync_directory(&directory) {
                error!(
                    "No {}/ found in {} (create that directory to Ethersync-enable the project)",
                    ETHERSYNC_CONFIG_DIR,
                    directory.display()
                );
                return Ok(());
            }
""", """                ;
            if has_ethersync_directory(&directory) {
                info!("Found {}", ETHERSYNC_CONFIG_DIR);
            } else {
                error!(
                    "No {}/ found in {} (create that directory to Ethersync-enable the project)",
                    ETHERSYNC_CONFIG_DIR,
                    directory.display()
                );
                return Ok(());
            }
            let directory = directory.canonicalize().expect("Could not access given directory");
"""))
same("c32-metadata", (MA, """ && ethersync_dir.is_dir()""", """ && std::fs::metadata(&ethersync_dir).is_ok_and(|m| m.is_dir())"""))
same("c32-early", (MA, """    sandbox::exists(dir, &ethersync_dir).expect("Failed to check") && ethersync_dir.is_dir()""", """    if !sandbox::exists(dir, &ethersync_dir).expect("Failed to check") {
        return false;
    }
    let found = ethersync_dir.is_dir();
    found"""))

MKDIR = """                let parent_dir = abs_path.parent().unwrap();
                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
                    panic!("Could not create parent directory {}", parent_dir.display())
                });
"""
bug("c06-mkdir-body", "C06", (SB, """    std::fs::create_dir_all(canonical_dir_path)?;
""", ""))
bug("c06-mkdir-one", "C06", (SB, """    std::fs::create_dir_all(canonical_dir_path)?;
""", """    std::fs::create_dir(canonical_dir_path)?;
"""))
bug("c06-mkdir-late", "C06", (DA, MKDIR, ""), (DA, """                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
""", """                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
""" + MKDIR))
bug("c06-mkdir-base", "C06", (DA, MKDIR, MKDIR.replace("create_dir_all(&self.base_dir, parent_dir)", "create_dir_all(&self.base_dir, &self.base_dir)")))
bug("c06-mkdir-if-there", "C06", (DA, MKDIR, """                let parent_dir = abs_path.parent().unwrap();
                if parent_dir.exists() {
                    sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
                        panic!("Could not create parent directory {}", parent_dir.display())
                    });
                }
"""))
same("c06-mkdir-if-not-there", (DA, MKDIR, """                let parent_dir = abs_path.parent().unwrap();
                if !parent_dir.exists() {
                    sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
                        panic!("Could not create parent directory {}", parent_dir.display())
                    });
                }
"""))
same("c06-mkdir-helper", (DA, MKDIR, """                self.prepare_directory(&abs_path);
"""), (DA, """    // TODO: Should this also go to the sandbox module?
    fn build_walk""", """    fn prepare_directory(&self, path: &AbsolutePath) {
        let Some(parent_dir) = path.parent() else {
            panic!("No parent");
        };
        sandbox::create_dir_all(&self.base_dir, parent_dir).expect("Could not create parent directory");
    }

    // TODO: Should this also go to the sandbox module?
    fn build_walk"""))
same("c06-mkdir-match", (DA, MKDIR, """                if let Some(parent_dir) = abs_path.parent() {
                    sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
                        panic!("Could not create parent directory {}", parent_dir.display())
                    });
                }
"""))

CHANS = """        let syncer = SyncActor::new(self.document_handle.clone(), from_peer_rx, to_peer_tx);
"""
LISTENER = """                    if let Some((peer, stream)) = incoming_streams.next().await {
                        info!("Peer connected: {}", peer);
                        self.spawn_peer_sync(stream);
                    }
"""
bug("c07-listener-dropped", "C07", (PE, LISTENER, LISTENER.replace("                        self.spawn_peer_sync(stream);\n", "                        drop(stream);\n")))
bug("c07-dialer-dropped", "C07", (PE, """                    info!("Connected to peer {}", peer_id);

                    self.spawn_peer_sync(stream);
""", """                    info!("Connected to peer {}", peer_id);

                    if self.connection_info.peer.is_none() {
                        self.spawn_peer_sync(stream);
                    }
"""))
bug("c07-listener-only-host", "C07", (PE, LISTENER, """                    if !self.connection_info.is_host() {
                        continue;
                    }
""" + LISTENER))
bug("c07-first-only", "C07", (PE, LISTENER, """                    if established {
                        continue;
                    }
                    established = true;
""" + LISTENER), (PE, """        // Poll the swarm to make progress.
""", """        let mut established = false;
"""))
bug("c07-crossed", "C07", (PE, """        let (from_peer_tx, from_peer_rx) = mpsc::channel(16);

""" + CHANS, """        let (from_peer_tx, from_peer_rx) = mpsc::channel(16);
        let (_unused, from_peer_rx2) = mpsc::channel(16);

        let syncer = SyncActor::new(self.document_handle.clone(), from_peer_rx2, to_peer_tx);
        let _ = &from_peer_rx;
"""))
bug("c07-own-loop", "C07", (PE, CHANS, """        let syncer = SyncActor::new(self.document_handle.clone(), from_peer_rx, from_peer_tx.clone());
        let _ = &to_peer_tx;
"""))
same("c07-channel-names", (PE, """        let (to_peer_tx, to_peer_rx) = mpsc::channel(16);
        let (from_peer_tx, from_peer_rx) = mpsc::channel(16);
""", """        let (from_peer_tx, from_peer_rx) = mpsc::channel(32);
        let outgoing = mpsc::channel(32);
        let to_peer_tx = outgoing.0;
        let to_peer_rx = outgoing.1;
"""))
same("c07-listener-match", (PE, LISTENER, """                    match incoming_streams.next().await {
                        None => continue,
                        Some((peer, stream)) => {
                            info!("Peer connected: {}", peer);
                            self.spawn_peer_sync(stream);
                        }
                    }
"""))
same("c07-dialer-logged", (PE, """                    let stream = control
                        .open_stream(peer_id, ETHERSYNC_PROTOCOL)
                        .await
                        .context("Failed to open stream")?;
""", """                    let stream = match control.open_stream(peer_id, ETHERSYNC_PROTOCOL).await {
                        Ok(stream) => stream,
                        Err(err) => {
                            error!("Failed to open stream: {err}");
                            continue;
                        }
                    };
"""))
same("c07-event-helper", (PE, """                    let mut control = swarm.behaviour().new_control();
                    let stream = control
                        .open_stream(peer_id, ETHERSYNC_PROTOCOL)
                        .await
                        .context("Failed to open stream")?;

                    info!("Connected to peer {}", peer_id);

                    self.spawn_peer_sync(stream);
""", """                    let control = swarm.behaviour().new_control();
                    self.dialed(control, peer_id).await?;
"""), (PE, """    fn spawn_peer_sync(&self""", """    async fn dialed(&self, mut control: stream::Control, peer_id: libp2p::PeerId) -> Result<()> {
        let stream = control
            .open_stream(peer_id, ETHERSYNC_PROTOCOL)
            .await
            .context("Failed to open stream")?;
        info!("Connected to peer {}", peer_id);
        self.spawn_peer_sync(stream);
        Ok(())
    }

    fn spawn_peer_sync(&self"""))
same("c07-join", (PE, """            let syncer_handle = tokio::spawn(async move {
                // The syncer can fail when the protocol_handler below has
                // stopped. But in that case, both components will stop, so we can
                // ignore the error.
                let _ = syncer.run().await;
            });
""", """            let syncer_handle = tokio::spawn(syncer.run());
"""))

# futures that are spawned as they are
same("spawn-run", (DA, """    async fn run(&mut self) {""", """    async fn run(mut self) {"""), (DA, "        let mut actor = DocumentActor::new(", "        let actor = DocumentActor::new("), (DA, """        tokio::spawn(async move { actor.run().await });""", """        tokio::spawn(actor.run());"""))
same("spawn-persister", (DA, """            tokio::spawn(async move {
                spawn_persister(document_handle).await;
            });
""", """            tokio::spawn(spawn_persister(document_handle));
"""))
same("spawn-p2p", (DA, """            tokio::spawn(async move {
                let p2p_actor =
                    peer::P2PActor::new(peer_connection_info, document_handle, &base_dir);
                let _ = p2p_actor.run().await;
            });
""", """            let p2p_actor = peer::P2PActor::new(peer_connection_info, document_handle, &base_dir);
            tokio::spawn(p2p_actor.run());
"""))
same("spawn-editors", (DA, """            tokio::spawn(async move {
                editor::make_editor_connection(socket_path, document_handle).await;
            });
""", """            tokio::spawn(editor::make_editor_connection(socket_path, document_handle));
"""))
same("spawn-editor-fn", (ED, """) {
    tokio::spawn(async move {
        let (stream_read""", """) {
    tokio::spawn(editor_connection(stream, document_handle, editor_id));
}

async fn editor_connection(
    stream: UnixStream,
    document_handle: DocumentActorHandle,
    editor_id: EditorId,
) {
        let (stream_read"""), (ED, """        info!("Client #{editor_id} disconnected");
    });
""", """        info!("Client #{editor_id} disconnected");
"""))
same("spawn-watcher", (DA, """async fn spawn_file_watcher(base_dir: &Path, document_handle: DocumentActorHandle) {
    let mut watcher = Watcher::new(base_dir);
""", """async fn spawn_file_watcher(base_dir: PathBuf, document_handle: DocumentActorHandle) {
    let mut watcher = Watcher::new(&base_dir);
"""), (DA, """            tokio::spawn(async move {
                spawn_file_watcher(&base_dir, document_handle).await;
            });
""", """            tokio::spawn(spawn_file_watcher(base_dir, document_handle));
"""))

bug("c06-table-new-cursor", "C06", (TY, """                } else if patch.path.len() == 1 {
                    match patch.action {
                        PatchAction::PutMap { .. } => Ok(PatchEffect::NoEffect),""", """                } else if patch.path.len() == 1 {
                    match patch.action {
                        PatchAction::PutMap { conflict: true, .. } => Ok(PatchEffect::NoEffect),"""))
bug("c06-table-conflict", "C06", (TY, """                                    warn!("Conflict for file '{file_name}' resolved. Taking your version");
                                    Ok(PatchEffect::NoEffect)
""", """                                    warn!("Conflict for file '{file_name}' resolved. Taking your version");
                                    Ok(PatchEffect::FileRemoval(RelativePath::new(&file_name)))
"""))
bug("c06-table-top", "C06", (TY, """                    if key == "files" || key == "states" {""", """                    if key == "files" {"""))
same("c06-table-top-match", (TY, """                    if key == "files" || key == "states" {
                        Ok(PatchEffect::NoEffect)
                    } else {
                        Err(anyhow::anyhow!(
                            "Path is empty and action is PutMap, but key is not 'files' or 'states'",
                        ))
                    }
""", """                    match key.as_str() {
                        "states" | "files" => Ok(PatchEffect::NoEffect),
                        _ => Err(anyhow::anyhow!(
                            "Path is empty and action is PutMap, but key is not 'files' or 'states'",
                        )),
                    }
"""))
same("c06-table-len", (TY, """        if patch.path.is_empty() {
            return match""", """        if patch.path.len() < 1 {
            return match"""))

# -- the Neovim plugin ---------------------------------------------------------------------
VP, VC, VU = "vim-plugin/plugin/ethersync.lua", "vim-plugin/lua/changetracker.lua", "vim-plugin/lua/utils.lua"
L_CHECK = "        if the_editor_revision == files[filepath].editor_revision then\n"
L_COUNT = "            files[filepath].daemon_revision = files[filepath].daemon_revision + 1\n"
L_MINE = "        files[filename].editor_revision = files[filename].editor_revision + 1\n"
L_PARAMS = "        local params = { uri = uri, delta = delta, revision = files[filename].daemon_revision }\n"
L_APPLY = """    ignore_edits = true
    local ok, err = pcall(utils.apply_text_edits, text_edits, buffer, "utf-32")
    ignore_edits = false
    if not ok then
        error(err, 0)
    end
"""
L_SKIP = """            if ignore_edits then
                prev_lines = curr_lines
                return
            end
"""
bug("c28-le", "C28", (VP, L_CHECK, L_CHECK.replace("==", "<=")))
bug("c28-always", "C28", (VP, L_CHECK, "        if true then\n"))
bug("c28-other-counter", "C28", (VP, L_CHECK, L_CHECK.replace(".editor_revision", ".daemon_revision")))
bug("c28-not-counted", "C28", (VP, L_COUNT, ""))
bug("c28-counted-always", "C28", (VP, L_COUNT + "        end\n", "        end\n" + L_COUNT))
bug("c28-counts-mine", "C28", (VP, L_COUNT, L_COUNT.replace("daemon_", "editor_")))
bug("c28-counts-length", "C28", (VP, L_COUNT, L_COUNT.replace("+ 1", "+ #delta")))
bug("c28-local-not-counted", "C28", (VP, L_MINE, ""))
bug("c28-local-counted-later", "C28", (VP, L_MINE, ""), (VP, '        send_request("edit", params)\n', """        send_request("edit", params, function()
            files[filename].editor_revision = files[filename].editor_revision + 1
        end)
"""))
bug("c28-sends-mine", "C28", (VP, L_PARAMS, L_PARAMS.replace("daemon_revision", "editor_revision")))
bug("c28-sends-zero", "C28", (VP, L_PARAMS, L_PARAMS.replace("files[filename].daemon_revision", "0")))
bug("c28-captured-revision", "C28", (VP, "    changetracker.track_changes(0, function(delta)\n", "    local revision = files[filename].daemon_revision\n    changetracker.track_changes(0, function(delta)\n"), (VP, L_PARAMS, L_PARAMS.replace("files[filename].daemon_revision", "revision")))
bug("c28-no-flag", "C28", (VC, L_APPLY, L_APPLY.replace("    ignore_edits = true\n", "")))
bug("c28-flag-stuck", "C28", (VC, L_APPLY, """    ignore_edits = true
    utils.apply_text_edits(text_edits, buffer, "utf-32")
    ignore_edits = false
"""))
bug("c28-flag-late", "C28", (VC, L_APPLY, """    utils.apply_text_edits(text_edits, buffer, "utf-32")
    ignore_edits = true
    ignore_edits = false
"""))
bug("c28-flag-stays", "C28", (VC, L_APPLY, L_APPLY.replace("    ignore_edits = false\n", "")))
bug("c28-flag-unused", "C28", (VC, L_SKIP, ""))
bug("c28-scheduled", "C28", (VC, L_APPLY, """    ignore_edits = true
    vim.schedule(function()
        utils.apply_text_edits(text_edits, buffer, "utf-32")
    end)
    ignore_edits = false
"""))
bug("c28-check-then-schedule", "C28", (VP, """            changetracker.apply_delta(bufnr, delta)

            files[filepath].daemon_revision = files[filepath].daemon_revision + 1
""", """            vim.schedule(function()
                changetracker.apply_delta(bufnr, delta)
                files[filepath].daemon_revision = files[filepath].daemon_revision + 1
            end)
"""))
bug("c28-forgets", "C28", (VC, L_SKIP, L_SKIP.replace("                prev_lines = curr_lines\n", "")))
bug("c28-forgets-2", "C28", (VC, "            prev_lines = curr_lines\n\n            local delta", "            local delta"))
bug("c28-detaches", "C28", (VC, L_SKIP, L_SKIP.replace("                return\n", "                return true\n")))
bug("c28-utf16", "C28", (VC, 'buffer, "utf-32")', 'buffer, "utf-16")'))
bug("c28-utf8-diff", "C28", (VC, 'new_last_line, "utf-32", "\\n")', 'new_last_line, "utf-8", "\\n")'))
bug("c28-current-buffer", "C28", (VP, "            local bufnr = vim.uri_to_bufnr(uri)\n", "            local bufnr = vim.api.nvim_get_current_buf()\n"))
bug("c28-skips-empty", "C28", (VC, "        table.insert(text_edits, text_edit)\n", """        if text_edit.newText ~= "" then
            table.insert(text_edits, text_edit)
        end
"""))
bug("c28-first-only", "C28", (VC, "        table.insert(text_edits, text_edit)\n", "        table.insert(text_edits, text_edit)\n        break\n"))
bug("c28-drops-blank", "C28", (VC, "            prev_lines = curr_lines\n\n            local delta", "            prev_lines = curr_lines\n            if diff.text == \"\" then\n                return\n            end\n\n            local delta"))
bug("c28-track-early", "C28", (VP, """    send_request("open", { uri = uri }, function()
        debug("Tracking Edits")
        ensure_autoread_is_off()
        track_edits(filename, uri)
    end)
""", """    send_request("open", { uri = uri })
    debug("Tracking Edits")
    ensure_autoread_is_off()
    track_edits(filename, uri)
"""))
bug("c28-track-on-error", "C28", (VP, """        if result then
            result_callback(result)
        end
""", "        result_callback(result)\n"))
bug("c28-starts-at-one", "C28", (VP, "        daemon_revision = 0,\n", "        daemon_revision = 1,\n"))
bug("c28-keeps-entry", "C28", (VP, "    files[filename] = {\n", "    files[filename] = files[filename] or {\n"))
bug("c28-close-keeps", "C28", (VP, "    files[closed_file] = nil\n", ""))
bug("c28-close-untold", "C28", (VP, '    send_notification("close", { uri = uri })\n', ""))
bug("c28-drop-cursor-line", "C28", (VP, L_CHECK, "        if the_editor_revision == files[filepath].editor_revision and vim.fn.mode() ~= \"i\" then\n"))
same("c28-entry", (VP, L_CHECK, "        local file = files[filepath]\n        if file and file.editor_revision == the_editor_revision then\n"), (VP, L_COUNT, "            file.daemon_revision = file.daemon_revision + 1\n"))
same("c28-early-return", (VP, L_CHECK + """            -- Find correct buffer to apply edits to.
            local bufnr = vim.uri_to_bufnr(uri)

            changetracker.apply_delta(bufnr, delta)

            files[filepath].daemon_revision = files[filepath].daemon_revision + 1
        end
""", """        if the_editor_revision ~= files[filepath].editor_revision then
            return
        end
        changetracker.apply_delta(vim.uri_to_bufnr(uri), delta)
        files[filepath].daemon_revision = 1 + files[filepath].daemon_revision
"""))
same("c28-count-first", (VP, """            changetracker.apply_delta(bufnr, delta)

""" + L_COUNT, L_COUNT + """
            changetracker.apply_delta(bufnr, delta)
"""))
same("c28-helper", (VP, "-- Take an operation from", """local function count(filename, field)
    local file = files[filename]
    file[field] = file[field] + 1
end

-- Take an operation from"""), (VP, L_COUNT, '            count(filepath, "daemon_revision")\n'), (VP, L_MINE, '        count(filename, "editor_revision")\n'))
same("c28-dispatch", (VP, """    elseif method == "cursor" then
        cursor.set_cursor(parameters.uri, parameters.userid, parameters.name, parameters.ranges)
    else
""", """    end
    local handlers = {
        cursor = function(ps)
            cursor.set_cursor(ps.uri, ps.userid, ps.name, ps.ranges)
        end,
    }
    if handlers[method] then
        handlers[method](parameters)
    elseif method ~= "edit" then
"""))
same("c28-counter-flag", (VC, "local ignore_edits = false\n", "local ignoring = 0\n"), (VC, L_SKIP, L_SKIP.replace("if ignore_edits then", "if ignoring > 0 then")), (VC, L_APPLY, L_APPLY.replace("ignore_edits = true", "ignoring = ignoring + 1").replace("ignore_edits = false", "ignoring = ignoring - 1")))
same("c28-flag-helper", (VC, L_APPLY, """    M.ignoring(utils.apply_text_edits, text_edits, buffer, "utf-32")
"""), (VC, "function M.apply_delta", """function M.ignoring(f, ...)
    ignore_edits = true
    local ok, err = pcall(f, ...)
    ignore_edits = false
    assert(ok, err)
end

function M.apply_delta"""))
same("c28-tbl-map", (VC, """    local text_edits = {}
    for _, replacement in ipairs(delta) do
        local text_edit = {
            range = replacement.range,
            newText = replacement.replacement,
        }
        table.insert(text_edits, text_edit)
    end
""", """    local text_edits = vim.tbl_map(function(replacement)
        return { range = replacement.range, newText = replacement.replacement }
    end, delta)
"""))
same("c28-fornum", (VC, """    for _, replacement in ipairs(delta) do
        local text_edit = {
            range = replacement.range,
            newText = replacement.replacement,
        }
        table.insert(text_edits, text_edit)
    end
""", """    for i = 1, #delta do
        text_edits[#text_edits + 1] = { range = delta[i].range, newText = delta[i].replacement }
    end
"""))
same("c28-utils-helper", (VU, "            vim.api.nvim_buf_set_text(bufnr, e.start_row, e.start_col, e.end_row, e.end_col, e.text)\n", "            set_text(bufnr, e)\n"), (VU, "--- Applies a list of text edits", """local function set_text(bufnr, e)
    vim.api.nvim_buf_set_text(bufnr, e.start_row, e.start_col, e.end_row, e.end_col, e.text)
end

--- Applies a list of text edits"""))
same("c28-local-order", (VP, L_MINE + "\n" + L_PARAMS + "\n", L_PARAMS + L_MINE))
same("c28-remember-first", (VC, L_SKIP, """            local before = prev_lines
            prev_lines = curr_lines
            if ignore_edits then
                return
            end
"""), (VC, "sync.compute_diff(prev_lines, curr_lines", "sync.compute_diff(before, curr_lines"), (VC, "            prev_lines = curr_lines\n\n            local delta", "            local delta"))
same("c28-noop", (VP, L_CHECK, "        local _ = 0\n" + L_CHECK), (VC, L_APPLY, "    local _ = 1\n" + L_APPLY), (VC, L_SKIP, "            do end\n" + L_SKIP))

# -- what random changes showed ---------------------------------------------------------------
bug("mut-close-keeps", "C03", (D + "editor_connection.rs", "                self.ot_servers.remove(&relative_path);\n", ""))
bug("mut-queue-lost", "C22", (D + "watcher.rs", """            if let Some(event) = self.out_queue.pop_front() {
                return Some(event);
            }
""", """            if let Some(event) = self.out_queue.pop_front() {
                debug!("{event:?}");
            }
"""))
bug("mut-hidden-start", "C17", (D + "daemon.rs", "            .hidden(false)\n", "            .hidden(true)\n"))
bug("mut-hidden-events", "C22", (D + "sandbox.rs", "        .hidden(false)\n", "        .hidden(true)\n"))
bug("mut-tilde", "C22", (D + "sandbox.rs", "!name.ends_with('~')", "!name.starts_with('~')"))
bug("mut-update-always", "C22", (D + "document.rs", "        if self.text_obj(file_path).is_ok() {\n            let current_text", "        if true {\n            let current_text"))
bug("mut-marker-file", "C32", (D + "main.rs", '.expect("Failed to check") && ethersync_dir.is_dir()', '.expect("Failed to check") || ethersync_dir.is_dir()'))
same("mut-update-callers", (D + "document.rs", """        if self.text_obj(file_path).is_ok() {
            let current_text""", """        {
            let current_text"""), (D + "document.rs", """            self.apply_delta_to_doc(&text_delta, file_path);
        } else {
            // The file doesn't exist in the CRDT yet, so we need to initialize it.
            info!("Creating {file_path} in CRDT.");
            self.initialize_text(desired_text, file_path);
        }
""", """            self.apply_delta_to_doc(&text_delta, file_path);
        }
"""), (D + "daemon.rs", """                        self.crdt_doc.update_text(&new_content, &relative_file_path);
""", """                        if self.crdt_doc.file_exists(&relative_file_path) {
                            self.crdt_doc.update_text(&new_content, &relative_file_path);
                        } else {
                            self.crdt_doc.initialize_text(&new_content, &relative_file_path);
                        }
"""), (D + "daemon.rs", """                                self.crdt_doc.update_text(&text, &relative_file_path);
""", """                                if self.crdt_doc.file_exists(&relative_file_path) {
                                    self.crdt_doc.update_text(&text, &relative_file_path);
                                } else {
                                    self.crdt_doc.initialize_text(&text, &relative_file_path);
                                }
"""))
same("mut-walk-filter", (D + "sandbox.rs", "            !ignored_things.contains(&name) && !name.ends_with('~')\n", """            if name.ends_with("~") {
                return false;
            }
            !ignored_things.iter().any(|thing| *thing == name)
"""), (D + "daemon.rs", "                !ignored_things.contains(&name)\n", "                name != \".git\" && name != \".ethersync\"\n"))
same("mut-walk-order", (D + "sandbox.rs", """        .standard_filters(true)
        .hidden(false)
""", """        .git_ignore(true)
        .hidden(false)
"""))
same("mut-close-order", (D + "editor_connection.rs", """                debug!("Got a 'close' message for {relative_path}");
                self.ot_servers.remove(&relative_path);
""", """                if self.ot_servers.remove(&relative_path).is_none() {
                    debug!("Closing {relative_path}, which is not open");
                }
"""))
same("mut-close-entry", (D + "editor_connection.rs", """                self.ot_servers.remove(&relative_path);
""", """                if self.ot_servers.contains_key(&relative_path) {
                    self.ot_servers.remove(&relative_path);
                }
"""))
same("mut-queue", (D + "watcher.rs", """            if let Some(event) = self.out_queue.pop_front() {
                return Some(event);
            }
""", """            let queued = self.out_queue.pop_front();
            if queued.is_some() {
                return queued;
            }
"""))
same("mut-queue-empty", (D + "watcher.rs", """            if let Some(event) = self.out_queue.pop_front() {
                return Some(event);
            }
""", """            if !self.out_queue.is_empty() {
                return self.out_queue.pop_front();
            }
"""))

# -- what others might break ----------------------------------------------------------
bug("v-register-async", "C13", (D + "editor.rs", """        document_handle
            .send_message(DocMessage::NewEditorConnection(editor_id, writer))
            .await;
""", """        let registration = document_handle.clone();
        tokio::spawn(async move {
            registration
                .send_message(DocMessage::NewEditorConnection(editor_id, writer))
                .await;
        });
"""))
bug("v-lines-spawned", "C13", (D + "editor.rs", """            document_handle
                .send_message(DocMessage::FromEditor(editor_id, line))
                .await;
""", """            let document_handle = document_handle.clone();
            tokio::spawn(async move {
                document_handle
                    .send_message(DocMessage::FromEditor(editor_id, line))
                    .await;
            });
"""))
bug("v-owns-dirty", "C02", (D + "editor_connection.rs", "        self.ot_servers.contains_key(file_path)\n", "        self.ot_servers\n            .get(file_path)\n            .is_some_and(OTServer::has_edits)\n"), (D + "ot.rs", """    pub fn current_content(&mut self)""", """    pub fn has_edits(&self) -> bool {
        self.editor_revision > 0 || self.daemon_revision > 0
    }

    pub fn current_content(&mut self)"""))
bug("v-refused-open", "C15", (D + "editor_connection.rs", """                // We only want to process these messages for files that are not ignored.
""", """                self.ot_servers
                    .insert(relative_path.clone(), OTServer::new(String::new()));

                // We only want to process these messages for files that are not ignored.
"""))
bug("v-key-lower", "C06", (D + "path.rs", "        Prop::Map(val.0.display().to_string())\n", "        Prop::Map(val.0.display().to_string().to_lowercase())\n"))
bug("v-files-hidden", "C17", (D + "document.rs", """                .keys(file_map)
                .map(|k| RelativePath::new(&k))
                .collect()
""", """                .keys(file_map)
                .filter(|k| !k.starts_with('.'))
                .map(|k| RelativePath::new(&k))
                .collect()
"""))
bug("v-send-feed", "C13", (D + "daemon.rs", "        connection.1.send(message).await.unwrap_or_else(", "        connection.1.feed(message).await.unwrap_or_else("))
bug("v-send-timeout", "C14", (D + "daemon.rs", """        connection.1.send(message).await.unwrap_or_else(|err| {
            error!("Failed to send message to editor: {err} Removing editor.");
            self.remove_editor_connection(editor_id);
        });
""", """        let sending = connection.1.send(message);
        match tokio::time::timeout(Duration::from_millis(100), sending).await {
            Ok(result) => result.unwrap_or_else(|err| {
                error!("Failed to send message to editor: {err} Removing editor.");
                self.remove_editor_connection(editor_id);
            }),
            Err(_) => warn!("Editor #{editor_id} is too slow, skipping a message"),
        }
"""))
bug("v-send-try", "C22", (D + "daemon.rs", """        self.doc_message_tx
            .send(message)
            .await
            .expect("DocumentActor task has been killed");
""", """        if let Err(err) = self.doc_message_tx.try_send(message) {
            warn!("Document is busy: {err}");
        }
"""))
bug("v-write-no-truncate", "C06", (D + "sandbox.rs", "    fs::write(canonical_file_path, content)?;\n", """    OpenOptions::new()
        .write(true)
        .create(true)
        .open(canonical_file_path)?
        .write_all(content)?;
"""))
bug("v-read-limit", "C17", (D + "sandbox.rs", "    let bytes = fs::read(canonical_file_path)?;\n", """    let mut bytes = vec![];
    std::io::Read::read_to_end(
        &mut std::io::Read::take(fs::File::open(canonical_file_path)?, 1 << 20),
        &mut bytes,
    )?;
"""))
bug("v-jsonrpc-id", "C13", (D + "daemon.rs", """                            JSONRPCResponse::RequestError {
                                id: Some(id),
                                error,
                            }""", """                            JSONRPCResponse::RequestError {
                                id: Some(editor_id),
                                error,
                            }"""))
same("v-write-open", (D + "sandbox.rs", "    fs::write(canonical_file_path, content)?;\n", """    let mut file = OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(canonical_file_path)?;
    file.write_all(content)?;
"""))
same("v-write-create", (D + "sandbox.rs", "    fs::write(canonical_file_path, content)?;\n", """    let mut file = fs::File::create(canonical_file_path)?;
    file.write_all(content)?;
"""))
same("v-sandbox-closure", (D + "sandbox.rs", """    let canonical_file_path =
        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
    let bytes = fs::read(canonical_file_path)?;
    Ok(bytes)
}
""", """    with_checked(absolute_base_dir, absolute_file_path, |path| fs::read(path))
}

fn with_checked<T>(
    absolute_base_dir: &Path,
    absolute_path: &Path,
    action: impl FnOnce(PathBuf) -> std::io::Result<T>,
) -> Result<T> {
    let canonical_path = check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_path)?;
    Ok(action(canonical_path)?)
}
"""), (D + "sandbox.rs", """    let canonical_file_path =
        check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
    fs::remove_file(canonical_file_path)?;
    Ok(())
""", """    with_checked(absolute_base_dir, absolute_file_path, |path| {
        fs::remove_file(path)
    })
"""))
same("v-path-helper", (D + "editor_connection.rs", """                let uri = FileUri::try_from(uri.clone()).map_err(anyhow_err_to_protocol_err)?;
                let absolute_path = uri.to_absolute_path();
                let relative_path = RelativePath::try_from_absolute(&self.base_dir, &absolute_path)
                    .map_err(anyhow_err_to_protocol_err)?;

                debug!("Got a 'close' message""", """                let relative_path = self
                    .relative_path_of(uri)
                    .map_err(anyhow_err_to_protocol_err)?;

                debug!("Got a 'close' message"""), (D + "editor_connection.rs", """                let uri = FileUri::try_from(uri.clone()).map_err(anyhow_err_to_protocol_err)?;
                let absolute_path = uri.to_absolute_path();
                let relative_path = RelativePath::try_from_absolute(&self.base_dir, &absolute_path)
                    .map_err(anyhow_err_to_protocol_err)?;

                if self.ot""", """                let relative_path = self
                    .relative_path_of(uri)
                    .map_err(anyhow_err_to_protocol_err)?;

                if self.ot"""), (D + "editor_connection.rs", """    pub fn message_from_editor(""", """    fn relative_path_of(&self, uri: &str) -> Result<RelativePath, anyhow::Error> {
        let uri = FileUri::try_from(uri.to_string())?;
        RelativePath::try_from_absolute(&self.base_dir, &uri.to_absolute_path())
    }

    pub fn message_from_editor("""))
same("v-watch-helper", (D + "daemon.rs", """            WatcherEvent::Removed { file_path } => {
                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                    .expect("Watcher event should have a path within the base directory");
                if self.owns(&relative_file_path) {
                    self.crdt_doc.remove_text(&relative_file_path);
                    let _ = self.doc_changed_ping_tx.send(());
                }
            }""", """            WatcherEvent::Removed { file_path } => {
                let relative_file_path = self.relative_path_of_event(&file_path);
                if !self.owns(&relative_file_path) {
                    debug!("{relative_file_path} is open in an editor");
                    return;
                }
                self.crdt_doc.remove_text(&relative_file_path);
                let _ = self.doc_changed_ping_tx.send(());
            }"""), (D + "daemon.rs", """    fn apply_sync_message_to_doc(""", """    fn relative_path_of_event(&self, file_path: &Path) -> RelativePath {
        RelativePath::try_from_path(&self.base_dir, file_path)
            .expect("Watcher event should have a path within the base directory")
    }

    fn apply_sync_message_to_doc("""))
same("v-loop-match", (D + "daemon.rs", """        while let Some(message) = self.doc_message_rx.recv().await {
            self.handle_message(message).await;
        }
""", """        loop {
            match self.doc_message_rx.recv().await {
                Some(message) => self.handle_message(message).await,
                None => break,
            }
        }
"""))
same("v-transform-index", (D + "ot.rs", """    let mut transformed_my_operations = vec![];
    for my_op_seq in my_operations {
        let mut my_op_seq = my_op_seq.clone();
""", """    let mut transformed_my_operations = Vec::with_capacity(my_operations.len());
    let mut remaining = my_operations.iter().cloned();
    while let Some(mut my_op_seq) = remaining.next() {
"""))
same("v-write-paths", (D + "daemon.rs", """        let mut file_paths = HashSet::new();
        for FileTextDelta { file_path, .. } in file_deltas {
            file_paths.insert(file_path);
        }

        for file_path in file_paths {
            self.maybe_write_file(file_path);
        }
""", """        let file_paths: HashSet<&RelativePath> =
            file_deltas.iter().map(|delta| &delta.file_path).collect();
        file_paths
            .into_iter()
            .for_each(|file_path| self.maybe_write_file(file_path));
"""))
same("v-broadcast-continue", (D + "daemon.rs", """            if Some(editor_id) == exclude_id {
                continue;
            }

            let messages_to_editor""", """            match exclude_id {
                Some(excluded) if excluded == editor_id => continue,
                _ => {}
            }

            let messages_to_editor"""))
same("v-cursor-order", (D + "document.rs", """        let state_map = self
            .top_level_map_obj("states")
            .expect("Failed to get states Map object");
        let user_obj = self
            .doc
            .put_object(state_map, cursor_id, ObjType::Text)
            .expect("Failed to initialize user state Map object in Automerge document");
        let cursor_state = CursorState {
            cursor_id: cursor_id.to_owned(),
            name,
            file_path: file_path.clone(),
            ranges,
        };
        let data = serde_json::to_string(&cursor_state).expect("Could not serialize cursor state");
""", """        let data = serde_json::to_string(&CursorState {
            cursor_id: cursor_id.to_owned(),
            name,
            file_path: file_path.clone(),
            ranges,
        })
        .expect("Could not serialize cursor state");
        let state_map = self
            .top_level_map_obj("states")
            .expect("Failed to get states Map object");
        let user_obj = self
            .doc
            .put_object(state_map, cursor_id, ObjType::Text)
            .expect("Failed to initialize user state Map object in Automerge document");
"""))
same("v-sync-match", (D + "peer.rs", """                doc_ping = doc_changed_ping_rx.recv() => {
                    match doc_ping {
                        Ok(()) => { self.generate_sync_message().await?; }
                        Err(broadcast::error::RecvError::Closed) => {
                            panic!("Doc changed channel has been closed");
                        }
                        Err(broadcast::error::RecvError::Lagged(_)) => {
                            // This is fine, the messages in this channel are just pings.
                            // It's fine if we miss some.
                            debug!("Doc changed ping channel lagged (this is probably fine)");
                        }
                    }
                }
""", """                doc_ping = doc_changed_ping_rx.recv() => {
                    self.react_to_ping(doc_ping).await?;
                }
"""), (D + "peer.rs", """    async fn run(mut self) -> Result<()> {
        let mut doc_changed""", """    async fn react_to_ping(
        &mut self,
        doc_ping: Result<(), broadcast::error::RecvError>,
    ) -> Result<()> {
        match doc_ping {
            Ok(()) => self.generate_sync_message().await,
            Err(broadcast::error::RecvError::Closed) => {
                panic!("Doc changed channel has been closed");
            }
            Err(broadcast::error::RecvError::Lagged(_)) => {
                debug!("Doc changed ping channel lagged (this is probably fine)");
                Ok(())
            }
        }
    }

    async fn run(mut self) -> Result<()> {
        let mut doc_changed"""))
same("v-new-editor-helper", (D + "daemon.rs", """                let editor_connection_id = self.cursor_id(id);
                self.editor_connections.insert(
                    id,
                    (
                        EditorConnection::new(editor_connection_id, self.base_dir.clone()),
                        editor_writer,
                    ),
                );
            }""", """                self.add_editor_connection(id, editor_writer);
            }"""), (D + "daemon.rs", """    fn absolute_path_for_file_path(&self""", """    fn add_editor_connection(&mut self, id: EditorId, editor_writer: EditorWriter) {
        let connection = EditorConnection::new(self.cursor_id(id), self.base_dir.clone());
        self.editor_connections
            .insert(id, (connection, editor_writer));
    }

    fn absolute_path_for_file_path(&self"""))
