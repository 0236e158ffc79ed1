//! A peer that is not the daemon: it connects, puts files into the shared document, and syncs.
//!
//! peer <address> <secret> <drip ms> [<file name> <content> | -<file name to delete>]...
//!
//! With a drip time, the four bytes of each message's length are sent in two halves.
use automerge::{sync::{Message, State, SyncDoc}, transaction::Transactable, AutoCommit, ObjType, ReadDoc};
use futures::{AsyncReadExt, AsyncWriteExt, StreamExt};
use libp2p::{core::transport::upgrade::Version, identity::Keypair, noise, pnet, tcp, yamux, Multiaddr, StreamProtocol, Transport};
use std::time::Duration;

const INITIAL: [u8; 128] = [
    133, 111, 74, 131, 61, 157, 231, 85, 0, 118, 1, 16, 120, 107, 104, 47, 215, 9, 76, 32,
    132, 136, 60, 124, 152, 120, 144, 182, 1, 143, 164, 31, 13, 102, 61, 139, 125, 246,
    189, 135, 97, 16, 167, 63, 30, 215, 249, 60, 227, 113, 111, 61, 55, 138, 234, 94, 30,
    142, 166, 78, 250, 6, 1, 2, 3, 2, 19, 2, 35, 2, 64, 2, 86, 2, 7, 21, 14, 33, 2, 35, 2,
    52, 1, 66, 2, 86, 2, 128, 1, 2, 127, 0, 127, 1, 127, 2, 127, 0, 127, 0, 127, 7, 126, 5,
    102, 105, 108, 101, 115, 6, 115, 116, 97, 116, 101, 115, 2, 0, 2, 1, 2, 2, 0, 2, 0, 2,
    0, 0,
];

#[tokio::main]
async fn main() {
    let args: Vec<String> = std::env::args().collect();
    let drip: u64 = args[3].parse().unwrap();
    let mut key = [0u8; 32];
    pbkdf2::pbkdf2_hmac::<sha2::Sha256>(args[2].as_bytes(), b"ethersync", 1000, &mut key);
    let mut swarm = libp2p::SwarmBuilder::with_existing_identity(Keypair::generate_ed25519())
        .with_tokio()
        .with_other_transport(|keypair| {
            let psk = pnet::PreSharedKey::new(key);
            Ok(tcp::tokio::Transport::new(tcp::Config::new())
                .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket))
                .upgrade(Version::V1Lazy)
                .authenticate(noise::Config::new(keypair)?)
                .multiplex(yamux::Config::default()))
        })
        .unwrap()
        .with_behaviour(|_| libp2p_stream::Behaviour::new())
        .unwrap()
        .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(60)))
        .build();
    swarm.dial(args[1].parse::<Multiaddr>().unwrap()).unwrap();
    let mut control = swarm.behaviour().new_control();
    let peer_id = loop {
        match swarm.next().await.unwrap() {
            libp2p::swarm::SwarmEvent::ConnectionEstablished { peer_id, .. } => break peer_id,
            e => eprintln!("{e:?}"),
        }
    };
    tokio::spawn(async move { loop { swarm.next().await; } });
    let stream = control.open_stream(peer_id, StreamProtocol::new("/ethersync")).await.unwrap();
    let (mut rd, mut wr) = stream.split();

    let mut doc = AutoCommit::load(&INITIAL).unwrap();
    let mut changes: Vec<String> = args[4..].to_vec();
    let mut state = State::new();
    let (tx, mut rx) = tokio::sync::mpsc::channel::<Option<Message>>(100);
    tokio::spawn(async move {
        loop {
            let mut len = [0; 4];
            if rd.read_exact(&mut len).await.is_err() { break; }
            let mut buf = vec![0; u32::from_be_bytes(len) as usize];
            if rd.read_exact(&mut buf).await.is_err() { break; }
            tx.send(Some(Message::decode(&buf).unwrap())).await.unwrap();
        }
        let _ = tx.send(None).await;
    });
    loop {
        if drip > 0 {
            apply(&mut doc, &mut changes);
        }
        while let Some(m) = doc.sync().generate_sync_message(&mut state) {
            let m = m.encode();
            let len = u32::try_from(m.len()).unwrap().to_be_bytes();
            if drip > 0 {
                wr.write_all(&len[..2]).await.unwrap();
                wr.flush().await.unwrap();
                tokio::time::sleep(Duration::from_millis(drip)).await;
                wr.write_all(&len[2..]).await.unwrap();
            } else {
                wr.write_all(&len).await.unwrap();
            }
            if wr.write_all(&m).await.is_err() { println!("closed"); return; }
            let _ = wr.flush().await;
        }
        match tokio::time::timeout(Duration::from_millis(1500), rx.recv()).await {
            Ok(Some(Some(m))) => doc.sync().receive_sync_message(&mut state, m).unwrap(),
            Ok(_) => { println!("closed"); return; }
            Err(_) => {
                let Ok(Some((_, files))) = doc.get(automerge::ROOT, "files") else { panic!() };
                println!("files: {:?}", doc.keys(&files).collect::<Vec<_>>());
                apply(&mut doc, &mut changes);
            }
        }
    }
}

fn apply(doc: &mut AutoCommit, changes: &mut Vec<String>) {
    let Ok(Some((_, files))) = doc.get(automerge::ROOT, "files") else { panic!() };
    while !changes.is_empty() {
        let f = changes.remove(0);
        if let Some(f) = f.strip_prefix('-') {
            doc.delete(&files, f).unwrap();
        } else {
            let c = changes.remove(0);
            let t = doc.put_object(&files, f, ObjType::Text).unwrap();
            doc.splice_text(t, 0, 0, &c).unwrap();
        }
    }
}
