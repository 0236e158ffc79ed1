"""Names of the library functions that several rules are about."""

# change an Automerge document
MUTATORS = (
    "::Transactable::put",
    "::Transactable::put_object",
    "::Transactable::insert",
    "::Transactable::insert_object",
    "::Transactable::increment",
    "::Transactable::delete",
    "::Transactable::splice",
    "::Transactable::splice_text",
    "::Transactable::update_text",
    "::Transactable::update_object",
    "::Transactable::mark",
    "::Transactable::unmark",
    "::Transactable::split_block",
    "::Transactable::join_block",
    "::Transactable::replace_block",
    "::SyncDoc::receive_sync_message",
    "::SyncDoc::receive_sync_message_log_patches",
    "::AutoCommit::merge",
    "::AutoCommit::load_incremental",
    "::AutoCommit::apply_changes",
    "::AutoCommit::receive_sync_message",
)
PING = ("tokio::sync::broadcast::Sender::send",)
MPSC_RECV = (
    "tokio::sync::mpsc::bounded::Receiver::recv",
    "tokio::sync::mpsc::unbounded::UnboundedReceiver::recv",
)
