//! Filter and tweak oracles.
use bdk_sp_oracles::bip157::tokio::sync::mpsc::UnboundedSender;
use bdk_sp_oracles::bip157::{BlockFilter, BlockHash, Event, IndexedFilter, UnboundedReceiver};
use bdk_sp_oracles::filters::kyoto::{FilterEvent, UpdateError, WriteRange, TABLE_DEF};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitClient, BlindbitError, BlockHeightResponse, InfoResponse, TweakEvent};
use bitcoin::absolute::Height;
use bitcoin::secp256k1::PublicKey;
use bitcoin::Amount;
use reqwest::{Client, Url};
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime};
use indexer::v2::SpIndexerV2;
use redb::Database;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Everything queued is written and committed; what was written is reported; nothing stays queued.
fn flush(db: &Mutex<Database>, queue: &mut BTreeSet<IndexedFilter>) -> BTreeMap<u32, BlockHash> {
    let mut written = BTreeMap::new();
    let tx = db.lock().unwrap().begin_write().unwrap();
    {
        let mut table = tx.open_table(TABLE_DEF).unwrap();
        for f in std::mem::take(queue) {
            let (height, hash) = (f.height(), f.block_hash());
            table.insert(height, f.into_contents()).unwrap();
            written.insert(height, hash);
        }
    }
    tx.commit().unwrap();
    written
}

const QUEUED: usize = 999;

pub fn store(db: Arc<Mutex<Database>>, filters: Vec<IndexedFilter>) -> Vec<BTreeMap<u32, BlockHash>> {
    let mut queue = BTreeSet::new();
    let mut out = vec![];
    for f in filters {
        queue.insert(f);
        if queue.len() > QUEUED {
            out.push(flush(&db, &mut queue));
        }
    }
    out.push(flush(&db, &mut queue));
    out
}

pub async fn filters(
    db: Arc<Mutex<Database>>,
    mut receiver: UnboundedReceiver<Event>,
    sender: UnboundedSender<FilterEvent>,
    birthday: u32,
) -> Result<(), UpdateError> {
    let mut queue = BTreeSet::new();
    while let Some(event) = receiver.recv().await {
        if let Event::IndexedFilter(filter) = event {
            // nothing of interest is older than the wallet
            if filter.height() >= birthday {
                queue.insert(filter);
                if queue.len() > QUEUED {
                    let writes = flush(&db, &mut queue);
                    sender.send(FilterEvent::Changes(WriteRange { writes })).map_err(|_| UpdateError::ChannelClosed)?;
                }
            }
        } else if let Event::FiltersSynced(update) = event {
            let writes = flush(&db, &mut queue);
            sender.send(FilterEvent::Changes(WriteRange { writes })).map_err(|_| UpdateError::ChannelClosed)?;
            sender.send(FilterEvent::Tip(BlockId { height: update.tip.height, hash: update.tip.hash })).unwrap();
        }
    }
    Err(UpdateError::NodeStopped)
}

pub async fn tweaks(
    unspent: Vec<[u8; 34]>,
    indexer: SpIndexerV2<ConfirmationBlockTime>,
    host: String,
    mut requests: UnboundedReceiver<FilterEvent>,
    sender: UnboundedSender<TweakEvent>,
) -> Result<(), BlindbitError> {
    let db = Mutex::new(Database::create("filter_data.redb").unwrap());
    let client = BlindbitClient::new(host)?;
    while let Some(request) = requests.recv().await {
        match request {
            FilterEvent::Tip(tip) => sender.send(TweakEvent::Synced(tip)).unwrap(),
            FilterEvent::Changes(range) => {
                let read = db.lock().unwrap().begin_read().unwrap();
                let table = read.open_table(TABLE_DEF).unwrap();
                for (height, hash) in range.writes {
                    let tweaks = client.tweaks(height, Amount::from_sat(1000)).await.unwrap_or_default();
                    let mut scripts: HashMap<[u8; 34], PublicKey> = HashMap::new();
                    for tweak in &tweaks {
                        for spk in indexer.derive_spks_for_tweak(tweak) {
                            scripts.insert(spk, *tweak);
                        }
                    }
                    let stored = table.get(&height).unwrap().unwrap();
                    let wanted: Vec<[u8; 34]> = scripts.keys().copied().chain(unspent.iter().copied()).collect();
                    let hit = BlockFilter::new(&stored.value()).match_any(&hash, wanted.into_iter()).unwrap();
                    if !tweaks.is_empty() && hit {
                        sender.send(TweakEvent::Matches((hash, scripts))).unwrap();
                    }
                }
            }
        }
    }
    Ok(())
}

/// the address everything else is relative to: the configured one, taken as a directory
fn base(host: String) -> Result<Url, BlindbitError> {
    let mut url = Url::parse(&host).map_err(BlindbitError::from)?;
    if !url.path().ends_with('/') {
        url.set_path(&format!("{}/", url.path()));
    }
    Ok(url)
}

pub async fn get_tweaks(host: String, height: u32, dust: Amount) -> Result<Vec<PublicKey>, BlindbitError> {
    let base = base(host)?;
    let url = base.join(&format!("tweaks/{}", height)).map_err(BlindbitError::from)?;
    let dust = format!("{}", dust.to_sat());
    let answer = Client::new().get(url).query(&[("dustLimit", dust)]).send().await.map_err(BlindbitError::from)?;
    let body = answer.text().await.map_err(BlindbitError::from)?;
    serde_json::from_str(&body).map_err(BlindbitError::from)
}

pub async fn get_height(host: String) -> Result<Height, BlindbitError> {
    let url = base(host)?.join("block-height").map_err(BlindbitError::from)?;
    let answer = Client::new().get(url).timeout(Duration::from_secs(5)).send().await.map_err(BlindbitError::from)?;
    let body = answer.text().await.map_err(BlindbitError::from)?;
    let r: BlockHeightResponse = serde_json::from_str(&body).map_err(BlindbitError::from)?;
    Ok(r.height)
}

pub async fn get_info(host: String) -> Result<InfoResponse, BlindbitError> {
    let url = base(host)?.join("info").map_err(BlindbitError::from)?;
    let answer = Client::new().get(url).send().await.map_err(BlindbitError::from)?;
    let body = answer.text().await.map_err(BlindbitError::from)?;
    serde_json::from_str(&body).map_err(BlindbitError::from)
}
