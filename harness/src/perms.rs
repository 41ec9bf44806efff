//! C17: permission statements.
use std::borrow::Cow;

use bonsaidb_core::connection::{AuthenticationMethod, Session, SessionAuthentication};
use bonsaidb_core::document::{DocumentId, KeyId};
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Action, ActionName, ActionNameList, Identifier, Permissions, ResourceName, Statement};
use bonsaidb_core::schema::{CollectionName, Name, Qualified, ViewName};
use bonsaidb_core::Error;

use crate::engine::*;
use crate::{ensure, ensure_eq, fail};

// ---------- the reference evaluator ----------

/// An action by its name.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Act(pub Vec<String>);
impl Action for Act {
    fn name(&self) -> ActionName {
        ActionName(self.0.iter().map(|s| Cow::Owned(s.clone())).collect())
    }
}
pub fn act(a: &impl Action) -> Act {
    Act(a.name().0.iter().map(|s| s.to_string()).collect())
}
pub type Resource = Vec<Identifier<'static>>;
pub fn resource(r: &ResourceName<'_>) -> Resource {
    r.to_owned().as_ref().to_vec()
}
/// The bytes an identifier is compared by; none for a wildcard.
fn bytes(i: &Identifier<'_>) -> Option<Vec<u8>> {
    match i {
        Identifier::Any => None,
        Identifier::Integer(n) => Some(n.to_be_bytes().to_vec()),
        Identifier::String(s) => Some(s.as_bytes().to_vec()),
        Identifier::Bytes(b) => Some(b.to_vec()),
    }
}
fn segment_matches(granted: &Identifier<'_>, asked: &Identifier<'_>) -> bool {
    bytes(granted).is_none() || bytes(granted) == bytes(asked)
}
fn resource_matches(granted: &[Identifier<'_>], asked: &[Identifier<'_>]) -> bool {
    granted.len() <= asked.len() && granted.iter().zip(asked).all(|(g, a)| segment_matches(g, a))
}
/// Whether `statement` allows `action` on `asked`, read off the documentation:
/// it names a resource that is, or contains, the one asked for, and the action,
/// or a group of actions that contains it, or all actions.
pub fn states(statement: &Statement, asked: &[Identifier<'_>], action: &Act) -> bool {
    let named = match &statement.actions {
        None => false,
        Some(ActionNameList::All) => true,
        Some(ActionNameList::List(names)) => names.iter().any(|n| n.0.len() <= action.0.len() && n.0.iter().zip(&action.0).all(|(a, b)| a.as_ref() == b)),
    };
    named && statement.resources.iter().any(|r| resource_matches(r.as_ref(), asked))
}
pub fn allowed(statements: &[Statement], asked: &[Identifier<'_>], action: &Act) -> bool {
    statements.iter().any(|s| states(s, asked, action))
}
/// A permission set holding the union of `statements`, independent of how a
/// list of statements is evaluated.
pub fn permissions(statements: &[Statement]) -> Permissions {
    let each: Vec<Permissions> = statements
        .iter()
        .flat_map(|s| {
            let names: Vec<Option<ActionNameList>> = match &s.actions {
                Some(ActionNameList::List(names)) => names.iter().map(|n| Some(ActionNameList::List(vec![n.clone()]))).collect(),
                other => vec![other.clone()],
            };
            names
                .into_iter()
                .map(|actions| Permissions::from(vec![Statement { resources: s.resources.clone(), actions, configuration: s.configuration.clone() }]))
                .collect::<Vec<_>>()
        })
        .collect();
    Permissions::merged(each.iter())
}
/// Evaluating a list of statements, an earlier grant of a group of actions (or
/// of all) is replaced by a later grant of one of its members for the same
/// resource (known finding).
fn narrowed(statements: &[Statement], asked: &[Identifier<'_>], action: &Act) -> bool {
    let key = |r: &ResourceName<'_>| -> Vec<Option<Vec<u8>>> { r.as_ref().iter().map(bytes).collect() };
    let mut flat: Vec<(&ResourceName<'_>, Vec<String>)> = vec![];
    for s in statements {
        for r in &s.resources {
            match &s.actions {
                None => {}
                Some(ActionNameList::All) => flat.push((r, vec![])),
                Some(ActionNameList::List(names)) => flat.extend(names.iter().map(|n| (r, n.0.iter().map(|s| s.to_string()).collect()))),
            }
        }
    }
    flat.iter().enumerate().any(|(i, (r, n))| {
        resource_matches(r.as_ref(), asked)
            && action.0.starts_with(n)
            && flat[i + 1..].iter().any(|(r2, n2)| key(r) == key(r2) && n2.len() > n.len() && n2.starts_with(n))
    })
}

// ---------- actions ----------

/// Every action and its documented place in the hierarchy.
pub fn leaves() -> Vec<(BonsaiAction, &'static str)> {
    use BonsaiAction as B;
    use DatabaseAction as D;
    use ServerAction as S;
    vec![
        (B::Server(S::Connect), "Server.Connect"),
        (B::Server(S::ListAvailableSchemas), "Server.ListAvailableSchemas"),
        (B::Server(S::ListDatabases), "Server.ListDatabases"),
        (B::Server(S::CreateDatabase), "Server.CreateDatabase"),
        (B::Server(S::DeleteDatabase), "Server.DeleteDatabase"),
        (B::Server(S::CreateUser), "Server.CreateUser"),
        (B::Server(S::DeleteUser), "Server.DeleteUser"),
        (B::Server(S::SetPassword), "Server.SetPassword"),
        (B::Server(S::Authenticate(AuthenticationMethod::Token)), "Server.Authenticate.Token"),
        (B::Server(S::Authenticate(AuthenticationMethod::PasswordHash)), "Server.Authenticate.PasswordHash"),
        (B::Server(S::AssumeIdentity), "Server.AssumeIdentity"),
        (B::Server(S::ModifyUserPermissionGroups), "Server.ModifyUserPermissionGroups"),
        (B::Server(S::ModifyUserRoles), "Server.ModifyUserRoles"),
        (B::Database(D::Compact), "Database.Compact"),
        (B::Database(D::Document(DocumentAction::Get)), "Database.Document.Get"),
        (B::Database(D::Document(DocumentAction::List)), "Database.Document.List"),
        (B::Database(D::Document(DocumentAction::ListHeaders)), "Database.Document.ListHeaders"),
        (B::Database(D::Document(DocumentAction::Count)), "Database.Document.Count"),
        (B::Database(D::Document(DocumentAction::Insert)), "Database.Document.Insert"),
        (B::Database(D::Document(DocumentAction::Update)), "Database.Document.Update"),
        (B::Database(D::Document(DocumentAction::Overwrite)), "Database.Document.Overwrite"),
        (B::Database(D::Document(DocumentAction::Delete)), "Database.Document.Delete"),
        (B::Database(D::View(ViewAction::Query)), "Database.View.Query"),
        (B::Database(D::View(ViewAction::Reduce)), "Database.View.Reduce"),
        (B::Database(D::View(ViewAction::DeleteDocs)), "Database.View.DeleteDocs"),
        (B::Database(D::Transaction(TransactionAction::ListExecuted)), "Database.Transaction.ListExecuted"),
        (B::Database(D::Transaction(TransactionAction::GetLastId)), "Database.Transaction.GetLastId"),
        (B::Database(D::PubSub(PubSubAction::CreateSuscriber)), "Database.PubSub.CreateSuscriber"),
        (B::Database(D::PubSub(PubSubAction::Publish)), "Database.PubSub.Publish"),
        (B::Database(D::PubSub(PubSubAction::SubscribeTo)), "Database.PubSub.SubscribeTo"),
        (B::Database(D::PubSub(PubSubAction::UnsubscribeFrom)), "Database.PubSub.UnsubscribeFrom"),
        (B::Database(D::KeyValue(KeyValueAction::ExecuteOperation)), "Database.KeyValue.ExecuteOperation"),
    ]
}
fn actions(s: &mut Source, ctx: &mut Ctx) -> Res {
    let l = leaves();
    let (a, name) = s.pick(&l);
    let a = *a;
    ctx.log(name.to_string());
    ctx.nontrivial();
    // "action" pieces are compared as stored statements would be.
    let got = act(&a).0.join(".");
    ensure_eq!(canonical(&got), canonical(name), "the name of {a:?}");
    let twins: Vec<&str> = l.iter().filter(|(b, _)| act(b) == act(&a)).map(|(_, n)| *n).collect();
    ensure_eq!(twins.len(), 1, "actions with the name of {a:?}: {twins:?}");
    let (b, _) = s.pick(&l);
    let p = Permissions::from(vec![Statement::for_any().allowing(b)]);
    let r = bonsaidb_resource_name();
    ensure_eq!(p.allowed_to(&r, &a), act(b) == act(&a), "granting {b:?} allows {a:?}");
    Ok(())
}
fn canonical(name: &str) -> String {
    name.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '.').flat_map(char::to_lowercase).collect()
}

// ---------- C17: statements ----------

const WORDS: [&str; 9] = ["bonsaidb", "a", "b", "db", "document", "view", "", "aaaaaaaa", "\0"];
fn gen_segment(s: &mut Source, wild: bool) -> Identifier<'static> {
    match s.weighted(&[6, if wild { 3 } else { 0 }, 2, 2]) {
        0 => Identifier::from((*s.pick(&WORDS)).to_string()),
        1 => Identifier::Any,
        2 => match s.draw(4) {
            0 => Identifier::Integer(u64::from_be_bytes(*b"aaaaaaaa")),
            1 => Identifier::Integer(s.interesting_u64(u64::MAX)),
            _ => Identifier::Integer(s.draw(2)),
        },
        _ => match s.draw(4) {
            0 => Identifier::Bytes(Cow::Owned(b"a".to_vec())),
            1 => Identifier::Bytes(Cow::Owned(s.draw(2).to_be_bytes().to_vec())),
            2 => Identifier::Bytes(Cow::Owned(vec![])),
            3 => Identifier::Bytes(Cow::Owned(b"aaaaaaaa".to_vec())),
            _ => Identifier::Bytes(Cow::Owned(s.bytes(3, 2))),
        },
    }
}
fn name_of(segments: &[Identifier<'static>]) -> ResourceName<'static> {
    ResourceName::from(segments)
        .to_owned()
}
fn gen_action(s: &mut Source) -> Act {
    if s.bool() {
        let l = leaves();
        act(&s.pick(&l).0)
    } else {
        Act(s.list(1, 3, 3, |s| (*s.pick(&["x", "y", "X", "", "Document", "Database"])).to_string()))
    }
}
fn gen_statement(s: &mut Source, resources: &[Resource], acts: &[Act]) -> Statement {
    let rs = s.list(0, 3, 2, |s| {
        let mut r = if !resources.is_empty() && s.chance(2, 3) { s.pick(resources).clone() } else { s.list(0, 4, 3, |s| gen_segment(s, true)) };
        match s.draw(5) {
            0 => r.truncate(s.draw(r.len() as u64) as usize),
            1 if !r.is_empty() => {
                let i = s.below(r.len());
                r[i] = Identifier::Any;
            }
            2 if !r.is_empty() => {
                let i = s.below(r.len());
                r[i] = gen_segment(s, true);
            }
            3 => r.push(gen_segment(s, true)),
            _ => {}
        }
        name_of(&r)
    });
    let actions = match s.weighted(&[1, 2, 6]) {
        0 => None,
        1 => Some(ActionNameList::All),
        _ => Some(ActionNameList::List(s.list(0, 3, 2, |s| {
            let mut a = if !acts.is_empty() && s.chance(2, 3) { s.pick(acts).clone() } else { gen_action(s) };
            if s.chance(1, 3) {
                a.0.truncate(s.draw(a.0.len() as u64) as usize);
            }
            a.name()
        }))),
    };
    let mut st = Statement { resources: rs, actions, configuration: None };
    if s.chance(1, 6) {
        st.configure("limit", s.draw(9));
    }
    st
}
fn check_error(what: &str, r: Result<(), Error>, want: bool, asked: &Resource, action: &Act) -> Res {
    match r {
        Ok(()) => ensure!(want, "{what} allows {action:?} on {asked:?}"),
        Err(Error::PermissionDenied(e)) => {
            ensure!(!want, "{what} refuses {action:?} on {asked:?}");
            ensure_eq!(e.resource.as_ref(), &asked[..], "the resource named by the error");
            ensure_eq!(e.action.0, action.name().0, "the action named by the error");
        }
        Err(e) => fail!("{what}: {e:?}"),
    }
    Ok(())
}
fn statements_with(s: &mut Source, ctx: &mut Ctx, find: bool) -> Res {
    let resources: Vec<Resource> = (0..2).map(|_| s.list(0, 5, 4, |s| gen_segment(s, false))).collect();
    let acts: Vec<Act> = (0..2).map(|_| gen_action(s)).collect();
    let sts: Vec<Statement> = s.list(0, 5, 3, |s| gen_statement(s, &resources, &acts));
    ctx.log(format!("{sts:?}"));
    let from_vec = Permissions::from(sts.clone());
    let union = permissions(&sts);
    let cut = s.draw(sts.len() as u64) as usize;
    let (x, y) = (permissions(&sts[..cut]), permissions(&sts[cut..]));
    let merged = Permissions::merged([&x, &y]);
    let swapped = Permissions::merged([&y, &x]);
    let mut shuffled = sts.clone();
    for i in (1..shuffled.len()).rev() {
        shuffled.swap(i, s.below(i + 1));
    }
    let reordered = Permissions::from(shuffled.clone());
    let stored = |sts: &[Statement]| -> Res<Vec<Statement>> {
        let b: Vec<Statement> = pot::from_slice(&pot::to_vec(&sts.to_vec()).or_fail("pot")?).or_fail("pot")?;
        let b: Vec<Statement> = bincode::deserialize(&bincode::serialize(&b).or_fail("bincode")?).or_fail("bincode")?;
        serde_json::from_slice(&serde_json::to_vec(&b).or_fail("json")?).or_fail("json")
    };
    let loaded = Permissions::from(stored(&sts)?);
    let sent: Permissions = pot::from_slice(&pot::to_vec(&union).or_fail("pot")?).or_fail("pot")?;
    let sent: Permissions = bincode::deserialize(&bincode::serialize(&sent).or_fail("bincode")?).or_fail("bincode")?;
    let session = Session { id: None, authentication: SessionAuthentication::None, permissions: union.clone() };
    let none = Session::default();
    for _ in 0..8 {
        // ask about resources near the granted ones
        let near: Vec<Resource> = sts.iter().flat_map(|st| st.resources.iter().map(|r| r.as_ref().to_vec())).chain(resources.iter().cloned()).collect();
        let mut asked = s.pick(&near).clone();
        for seg in &mut asked {
            if matches!(seg, Identifier::Any) || s.chance(1, 6) {
                *seg = gen_segment(s, false);
            }
        }
        match s.draw(4) {
            0 => asked.push(gen_segment(s, false)),
            1 => {
                asked.pop();
            }
            _ => {}
        }
        let named: Vec<Act> = sts
            .iter()
            .flat_map(|st| match &st.actions {
                Some(ActionNameList::List(l)) => l.iter().map(|n| Act(n.0.iter().map(|s| s.to_string()).collect())).collect(),
                _ => vec![],
            })
            .chain(acts.iter().cloned())
            .collect();
        let mut action = s.pick(&named).clone();
        match s.draw(5) {
            0 => action.0.push("x".into()),
            1 => {
                action.0.pop();
            }
            2 => action = gen_action(s),
            _ => {}
        }
        let want = allowed(&sts, &asked, &action);
        ctx.count(if want { "allowed" } else { "refused" });
        if want && !sts.iter().all(|st| states(st, &asked, &action)) {
            ctx.nontrivial();
        }
        let show = || format!("{action:?} on {asked:?}");
        ensure_eq!(union.allowed_to(&asked, &action), want, "{} by the merged statements", show());
        ensure_eq!(merged.allowed_to(&asked, &action), want, "{} by two merged sets", show());
        ensure_eq!(swapped.allowed_to(&asked, &action), want, "{} by two sets merged the other way round", show());
        ensure_eq!(sent.allowed_to(&asked, &action), want, "{} by permissions stored and loaded", show());
        ensure_eq!(session.allowed_to(&asked, &action), want, "{} by the session", show());
        check_error("the session", session.check_permission(&asked, &action), want, &asked, &action)?;
        check_error("a new session", none.check_permission(&asked, &action), false, &asked, &action)?;
        for (what, list, p) in [("list", &sts, &from_vec), ("reordered list", &shuffled, &reordered), ("stored list", &sts, &loaded)] {
            let got = p.allowed_to(&asked, &action);
            ensure!(want || !got, "the {what} of statements allows {}, none of them does", show());
            if want && !got {
                if narrowed(list, &asked, &action) {
                    ctx.count("narrowed");
                    if find {
                        return Err(Failure::sig("allow-all-narrowed-by-later-statement", format!("{} is allowed by a statement, but not by the {what} {list:?}", show())));
                    }
                } else {
                    fail!("{} is allowed by a statement, but not by the {what} {list:?}", show());
                }
            }
        }
        ensure!(asked.is_empty() || Permissions::allow_all().allowed_to(&asked, &action), "allow_all() refuses {}", show());
    }
    Ok(())
}
fn statements(s: &mut Source, ctx: &mut Ctx) -> Res {
    statements_with(s, ctx, false)
}
fn narrowing(s: &mut Source, ctx: &mut Ctx) -> Res {
    let a = gen_action(s);
    let r = s.list(0, 2, 2, |s| gen_segment(s, false));
    let sts = vec![Statement::for_resource(name_of(&r)).allowing_all(), Statement::for_resource(name_of(&r)).allowing(&a)];
    let asked = r.clone();
    let other = Act(vec!["other".into()]);
    ctx.log(format!("{sts:?}"));
    ctx.nontrivial();
    if Permissions::from(sts.clone()).allowed_to(&asked, &other) {
        return Ok(());
    }
    Err(Failure::sig("allow-all-narrowed-by-later-statement", format!("all actions on {asked:?} are allowed by the first of {sts:?}, but {other:?} is refused")))
}

// ---------- C17: resource names ----------

fn gen_plain(s: &mut Source) -> String {
    match s.draw(3) {
        0 => (*s.pick(&["a", "b", "ab", "", "document", "view", "keyvalue", "pubsub", "user", "aaaaaaaa"])).to_string(),
        1 => s.word(3),
        _ => s.string(5, 3),
    }
}
/// A resource and what it stands for: kind, containing resource, and identity.
fn gen_name(s: &mut Source) -> (ResourceName<'static>, ResourceName<'static>, String, &'static str) {
    let db = gen_plain(s);
    let coll = {
        let a = gen_plain(s).replace('.', "_");
        let n = gen_plain(s).replace('.', "_");
        CollectionName::new(Name::from(a), Name::from(n))
    };
    match s.draw(11) {
        0 => (database_resource_name(db.clone()).to_owned(), bonsaidb_resource_name(), db, "database"),
        1 => (collection_resource_name(db.clone(), &coll).to_owned(), database_resource_name(db.clone()).to_owned(), format!("{db:?}/{coll:?}"), "collection"),
        2 => {
            let id = DocumentId::try_from(&s.bytes(9, 3)[..]).expect("HARNESS: id");
            (document_resource_name(db.clone(), &coll, &id).to_owned(), collection_resource_name(db.clone(), &coll).to_owned(), format!("{db:?}/{coll:?}/{:?}", &id[..]), "document")
        }
        3 => {
            let v = ViewName { collection: coll.clone(), name: Name::from(gen_plain(s)) };
            (view_resource_name(&db, &v).to_owned(), collection_resource_name(db.clone(), &coll).to_owned(), format!("{db:?}/{v:?}"), "view")
        }
        4 => {
            let t = s.bytes(5, 3);
            (pubsub_topic_resource_name(&db, &t).to_owned(), database_resource_name(db.clone()).to_owned(), format!("{db:?}/{t:?}"), "topic")
        }
        5 => (kv_resource_name(&db).to_owned(), database_resource_name(db.clone()).to_owned(), format!("{db:?}"), "keyvalue"),
        6 => {
            let ns = if s.bool() { Some(gen_plain(s)) } else { None };
            let k = gen_plain(s);
            (keyvalue_key_resource_name(&db, ns.as_deref(), &k).to_owned(), kv_resource_name(&db).to_owned(), format!("{db:?}/{:?}/{k:?}", ns.unwrap_or_default()), "key")
        }
        7 => {
            let id = s.interesting_u64(u64::MAX);
            (user_resource_name(id), bonsaidb_resource_name(), format!("{id}"), "user")
        }
        8 => {
            let id = s.interesting_u64(u64::MAX);
            (role_resource_name(id), bonsaidb_resource_name(), format!("{id}"), "role")
        }
        9 => {
            let id = s.interesting_u64(u64::MAX);
            (authentication_token_resource_name(id), bonsaidb_resource_name(), format!("{id}"), "token")
        }
        _ => {
            let key = if s.bool() { KeyId::Master } else { KeyId::Id(gen_plain(s).into()) };
            (encryption_key_resource_name(&key).to_owned(), bonsaidb_resource_name(), format!("{key:?}"), "encryption key")
        }
    }
}
fn names(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (a, parent, ida, kinda) = gen_name(s);
    ctx.log(format!("{a} {ida}"));
    let contains = |outer: &ResourceName<'_>, inner: &ResourceName<'_>| {
        let p = Permissions::from(vec![Statement::for_resource(outer.to_owned()).allowing_all()]);
        p.allowed_to(inner, &Act(vec!["x".into()]))
    };
    ensure!(contains(&a, &a), "a grant on {a} does not cover it");
    ensure!(contains(&parent, &a), "a grant on {parent} does not cover {a}");
    ensure!(!contains(&a, &parent), "a grant on {a} covers {parent}");
    ensure!(contains(&bonsaidb_resource_name(), &a), "a grant on everything does not cover {a}");
    for _ in 0..3 {
        let (b, _, idb, kindb) = gen_name(s);
        if kinda == kindb {
            ctx.nontrivial();
            if ida != idb && !(kinda == "encryption key" && (ida.contains("_master") || idb.contains("_master"))) {
                ensure!(!contains(&a, &b), "a grant on the {kinda} {a} ({ida}) covers {b} ({idb})");
            } else if ida == idb {
                ensure!(contains(&a, &b), "a grant on {a} does not cover the same resource {b}");
            }
        }
    }
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "statements: some asked action is allowed by some but not all of the statements; names: two names of the same kind were compared; actions, narrowing: always",
        assumptions: &["The rules in the crate documentation of Statement, Permissions and permissions::bonsai are restated in harness/src/perms.rs (states()).", "Collection authorities and names contain no '.' in the section names."],
        sections: vec![
            section("statements", 400_000, 12_000_000, statements),
            section("names", 300_000, 8_000_000, names),
            section("actions", 3_000, 20_000, actions),
            section("narrowing", 20, 20, narrowing),
        ],
    }
}
