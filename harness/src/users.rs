//! C19: users, groups, roles and authentication.
use std::collections::{BTreeMap, BTreeSet};

use bonsaidb_core::admin::{AuthenticationToken, PermissionGroup, Role, User};
use bonsaidb_core::connection::{
    AsyncStorageConnection, Authentication, HasSession, Identity, IdentityId, IdentityReference, SensitiveString, SessionAuthentication,
    StorageConnection, TokenChallengeAlgorithm,
};
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::document::{CollectionDocument, DocumentId};
use bonsaidb_core::key::time::TimestampAsNanoseconds;
use bonsaidb_core::permissions::bonsai::*;
use bonsaidb_core::permissions::{Action, ActionNameList, Statement};
use bonsaidb_core::schema::{Collection, Nameable, NamedReference, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::{Storage, StorageNonBlocking};

use crate::denied::rt;
use crate::engine::*;
use crate::fix::*;
use crate::ops::*;
use crate::perms::*;
use crate::{ensure, ensure_eq, fail};

const NAMES: [&str; 7] = ["ann", "bob", "Ann", "", "ünï", "1", "a b"];
const PASSWORDS: [&str; 8] = ["hunter2", "hunter", "hunter22", "Hunter2", "", " hunter2", "ünï\0x", "1"];

/// The resources granted and asked about.
fn universe() -> Vec<Resource> {
    let mut u: Vec<Resource> = vec![
        resource(&bonsaidb_resource_name()),
        resource(&database_resource_name("db")),
        resource(&database_resource_name("other")),
        resource(&collection_resource_name("db", &Col::Item.name())),
        resource(&collection_resource_name("db", &Col::Named.name())),
        resource(&document_resource_name("db", &Col::Item.name(), &DocumentId::from_u64(1))),
        resource(&view_resource_name("db", &V::Tag.name())),
        resource(&kv_resource_name("db")),
        resource(&role_resource_name(1)),
    ];
    for i in 0..3 {
        u.push(resource(&user_resource_name(i)));
    }
    u
}
fn gen_grant(s: &mut Source, u: &[Resource]) -> Statement {
    let mut rs: Vec<Resource> = vec![];
    for _ in 0..1 + s.draw(1) {
        let mut r = s.pick(u).clone();
        if s.chance(1, 4) {
            r.truncate(s.draw(r.len() as u64) as usize);
        }
        if s.chance(1, 6) && !r.is_empty() {
            let i = s.below(r.len());
            r[i] = bonsaidb_core::permissions::Identifier::Any;
        }
        if !rs.contains(&r) {
            rs.push(r);
        }
    }
    let actions = if s.chance(1, 6) {
        ActionNameList::All
    } else {
        let l = leaves();
        let mut names: Vec<Act> = vec![];
        for _ in 0..1 + s.draw(2) {
            let mut a = act(&s.pick(&l).0);
            if s.chance(1, 3) {
                a.0.truncate(1 + s.draw(a.0.len() as u64 - 1) as usize);
            }
            // known finding of C17: a later, narrower name replaces a wider one
            if !names.iter().any(|n| n.0.starts_with(&a.0) || a.0.starts_with(&n.0)) {
                names.push(a);
            }
        }
        ActionNameList::List(names.iter().map(|a| a.name()).collect())
    };
    Statement { resources: rs.iter().map(|r| bonsaidb_core::permissions::ResourceName::from(&r[..]).to_owned()).collect(), actions: Some(actions), configuration: None }
}

#[derive(Clone, Debug, Default)]
struct MUser {
    name: String,
    groups: BTreeSet<u64>,
    roles: BTreeSet<u64>,
    password: Option<String>,
}
#[derive(Clone, Debug, Default)]
struct MGroup {
    name: String,
    statements: Vec<Statement>,
}
#[derive(Clone, Debug, Default)]
struct MRole {
    name: String,
    groups: BTreeSet<u64>,
}
struct Token {
    id: u64,
    text: SensitiveString,
    of: IdentityId,
    deleted: bool,
}
#[derive(Default)]
struct Admin {
    users: BTreeMap<u64, MUser>,
    groups: BTreeMap<u64, MGroup>,
    roles: BTreeMap<u64, MRole>,
    tokens: Vec<Token>,
    authenticated: Vec<Statement>,
}
impl Admin {
    fn of_groups(&self, ids: &BTreeSet<u64>) -> Vec<Statement> {
        ids.iter().filter_map(|g| self.groups.get(g)).flat_map(|g| g.statements.clone()).collect()
    }
    fn of_user(&self, u: &MUser) -> Vec<Statement> {
        let mut ids = u.groups.clone();
        for r in &u.roles {
            ids.extend(self.roles.get(r).map(|r| r.groups.clone()).unwrap_or_default());
        }
        self.of_groups(&ids).into_iter().chain(self.authenticated.clone()).collect()
    }
    fn of_role(&self, r: &MRole) -> Vec<Statement> {
        self.of_groups(&r.groups).into_iter().chain(self.authenticated.clone()).collect()
    }
    fn rights(&self, who: IdentityId) -> Option<(Identity, Vec<Statement>)> {
        match who {
            IdentityId::User(id) => self.users.get(&id).map(|u| (Identity::User { id, username: u.name.clone() }, self.of_user(u))),
            IdentityId::Role(id) => self.roles.get(&id).map(|r| (Identity::Role { id, name: r.name.clone() }, self.of_role(r))),
            _ => None,
        }
    }
}
enum What {
    User,
    Group,
    Role,
}
/// A reference by name, key, document id or document to one of `known`, or to
/// none; with the id it means (by name: if it exists).
fn reference(s: &mut Source, what: &What, admin: &Admin, st: &Storage) -> Res<(Name, Option<u64>)> {
    let known: BTreeMap<u64, String> = match what {
        What::User => admin.users.iter().map(|(i, u)| (*i, u.name.clone())).collect(),
        What::Group => admin.groups.iter().map(|(i, u)| (*i, u.name.clone())).collect(),
        What::Role => admin.roles.iter().map(|(i, u)| (*i, u.name.clone())).collect(),
    };
    if s.chance(1, 8) || known.is_empty() {
        return Ok(match s.draw(2) {
            0 => {
                let n = *s.pick(&NAMES);
                (NamedReference::from(n).into_owned(), known.iter().find(|(_, k)| k == &n).map(|k| *k.0))
            }
            1 => {
                let id = s.draw(20);
                (NamedReference::Key(id), Some(id))
            }
            _ => {
                let id = s.draw(20);
                (NamedReference::Id(DocumentId::from_u64(id)), Some(id))
            }
        });
    }
    let ids: Vec<u64> = known.keys().copied().collect();
    let id = *s.pick(&ids);
    let db = st.admin();
    fn named<C: SerializedCollection<PrimaryKey = u64>>(d: Option<CollectionDocument<C>>) -> Res<Name> {
        let d = d.ok_or_else(|| Failure::new("an existing document is not found"))?;
        let n = (&d).name().or_fail("naming a document")?;
        Ok(n.into_owned())
    }
    Ok((
        match s.draw(3) {
            0 => NamedReference::Key(id),
            1 => NamedReference::from(known[&id].as_str()).into_owned(),
            2 => NamedReference::Id(DocumentId::from_u64(id)),
            _ => match what {
                What::User => named(User::get(&id, &db).or_fail("get")?)?,
                What::Group => named(PermissionGroup::get(&id, &db).or_fail("get")?)?,
                What::Role => named(Role::get(&id, &db).or_fail("get")?)?,
            },
        },
        Some(id),
    ))
}
/// A session is compared with the rights it should have.
fn check_session(what: &str, st: &Storage, want: &(Identity, Vec<Statement>), u: &[Resource], s: &mut Source, ctx: &mut Ctx) -> Res {
    let Some(session) = st.session() else { fail!("{what}: no session") };
    let SessionAuthentication::Identity(i) = &session.authentication else { fail!("{what}: not authenticated: {:?}", session.authentication) };
    ensure_eq!(format!("{i:?}"), format!("{:?}", want.0), "{what}: the session's identity");
    let l = leaves();
    for _ in 0..40 {
        // what is granted, or near it, or anything
        let (r, a) = if !want.1.is_empty() && s.bool() {
            let st = s.pick(&want.1).clone();
            let mut r = if st.resources.is_empty() { s.pick(u).clone() } else { s.pick(&st.resources).as_ref().to_vec() };
            for i in r.iter_mut() {
                if matches!(i, bonsaidb_core::permissions::Identifier::Any) {
                    *i = bonsaidb_core::permissions::Identifier::from("some");
                }
            }
            match s.draw(3) {
                0 => r.push(bonsaidb_core::permissions::Identifier::from("more")),
                1 => {
                    r.pop();
                }
                _ => {}
            }
            let a = match &st.actions {
                Some(ActionNameList::List(names)) if s.bool() => {
                    let n = s.pick(names);
                    let under: Vec<Act> = l.iter().map(|(a, _)| act(a)).filter(|a| a.0.iter().zip(n.0.iter()).all(|(a, b)| a == b.as_ref())).collect();
                    s.pick(&under).clone()
                }
                _ => act(&s.pick(&l).0),
            };
            (r, a)
        } else {
            (s.pick(u).clone(), act(&s.pick(&l).0))
        };
        let can = allowed(&want.1, &r, &a);
        ctx.count(if can { "allowed" } else { "refused" });
        ensure_eq!(session.allowed_to(&r, &a), can, "{what}: whether {a:?} on {r:?} is allowed (granted: {:?})", want.1);
    }
    let can = allowed(&want.1, &resource(&bonsaidb_resource_name()), &act(&BonsaiAction::Server(ServerAction::ListDatabases)));
    match st.list_databases() {
        Ok(_) => ensure!(can, "{what}: lists databases without permission"),
        Err(Error::PermissionDenied(_)) => ensure!(!can, "{what}: may not list databases, but is permitted to"),
        Err(e) => fail!("{what}: listing databases: {e:?}"),
    }
    Ok(())
}
fn invalid(what: &str, r: Result<Storage, Error>) -> Res {
    match r {
        Ok(st) => fail!("{what}: should fail, but got {:?}", st.session()),
        Err(Error::InvalidCredentials) => Ok(()),
        Err(e) => fail!("{what}: should fail with InvalidCredentials, but failed with {e:?}"),
    }
}
/// Everything stored about identities.
fn dump(st: &Storage) -> Res<String> {
    let db = st.admin();
    let users = User::all(&db).query().or_fail("users")?;
    let groups = PermissionGroup::all(&db).query().or_fail("groups")?;
    let roles = Role::all(&db).query().or_fail("roles")?;
    let mut t: Vec<_> = AuthenticationToken::all(&db).query().or_fail("tokens")?;
    t.sort_by_key(|t| t.header.id);
    Ok(format!(
        "{:?} {:?} {:?} {:?}",
        users.iter().map(|d| (&d.header, &d.contents.username, &d.contents.groups, &d.contents.roles, d.contents.argon_hash.as_ref().map(|h| h.0.clone()))).collect::<Vec<_>>(),
        groups.iter().map(|d| (&d.header, &d.contents)).collect::<Vec<_>>(),
        roles.iter().map(|d| (&d.header, &d.contents)).collect::<Vec<_>>(),
        t.iter().map(|d| (&d.header, d.contents.identity, &d.contents.token.0)).collect::<Vec<_>>()
    ))
}
fn check_stored(st: &Storage, m: &Admin) -> Res {
    let db = st.admin();
    let users = User::all(&db).query().or_fail("users")?;
    ensure_eq!(
        users.iter().map(|d| (d.header.id, d.contents.username.clone(), d.contents.groups.iter().copied().collect(), d.contents.roles.iter().copied().collect(), d.contents.argon_hash.is_some())).collect::<Vec<_>>(),
        m.users.iter().map(|(i, u)| (*i, u.name.clone(), u.groups.clone(), u.roles.clone(), u.password.is_some())).collect::<Vec<(u64, String, BTreeSet<u64>, BTreeSet<u64>, bool)>>(),
        "the stored users"
    );
    for u in &users {
        ensure!(u.contents.groups.iter().collect::<BTreeSet<_>>().len() == u.contents.groups.len(), "a group is assigned twice: {:?}", u.contents);
        ensure!(u.contents.roles.iter().collect::<BTreeSet<_>>().len() == u.contents.roles.len(), "a role is assigned twice: {:?}", u.contents);
    }
    Ok(())
}
/// `authenticate`/`assume_identity` through either interface.
fn auth(st: &Storage, a: Authentication, asy: bool) -> Result<Storage, Error> {
    if asy {
        let st = st.to_async_with_runtime(rt().handle().clone());
        rt().block_on(async { st.authenticate(a).await }).map(|s| s.into_blocking())
    } else {
        st.authenticate(a)
    }
}
fn assume(st: &Storage, i: IdentityReference<'_>, asy: bool) -> Result<Storage, Error> {
    if asy {
        let st = st.to_async_with_runtime(rt().handle().clone());
        rt().block_on(async { st.assume_identity(i).await }).map(|s| s.into_blocking())
    } else {
        st.assume_identity(i)
    }
}
fn now_hash(at: TimestampAsNanoseconds, token: &str) -> Vec<u8> {
    let key = blake3::derive_key(&format!("bonsaidb {at} token-authentication"), token.as_bytes());
    blake3::keyed_hash(&key, &at.representation().to_be_bytes()).as_bytes().to_vec()
}

fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let u = universe();
    let mut m = Admin::default();
    if s.chance(1, 3) {
        m.authenticated = s.list(1, 2, 1, |s| gen_grant(s, &u));
    }
    let opened = |m: &Admin| -> Res<Storage> {
        let mut c = config(&scratch.path("st"));
        c.authenticated_permissions = permissions(&m.authenticated);
        Storage::open(c).or_fail("opening")
    };
    let mut st = opened(&m)?;
    let steps = s.list(6, 40, 22, |_| ()).len();
    let (mut good, mut bad) = (0, 0);
    for _ in 0..steps {
        let asy = s.chance(1, 3);
        let db = st.admin();
        let go = |r: &Req| -> Out {
            if asy {
                let a = st.to_async_with_runtime(rt().handle().clone());
                rt().block_on(exec_async(&a, None, r))
            } else {
                exec(&st, None, r)
            }
        };
        let step = if m.users.is_empty() { 0 } else { s.weighted(&[3, 1, 7, 4, 2, 4, 2, 3, 2, 2, 2, 9, 6, 4, 6, 1, 1]) };
        match step {
            0 => {
                let name = s.pick(&NAMES).to_string();
                ctx.log(format!("create user {name:?}"));
                let taken = m.users.values().any(|x| x.name == name);
                let before: BTreeSet<u64> = m.users.keys().copied().collect();
                let out = go(&Req::CreateUser(name.clone()));
                if taken {
                    ensure!(matches!(&out, Out::Err(e) if e.starts_with("UniqueKeyViolation")), "creating a user whose name is taken: {out:?}");
                } else {
                    let Out::Ok(id) = &out else { fail!("creating a user: {out:?}") };
                    let id: u64 = id.parse().map_err(|_| Failure::new(format!("creating a user returns {id}")))?;
                    ensure!(!before.contains(&id), "a new user got the id of another");
                    m.users.insert(id, MUser { name, ..MUser::default() });
                }
            }
            1 => {
                let (r, id) = reference(s, &What::User, &m, &st)?;
                ctx.log(format!("delete user {r:?}"));
                let out = go(&Req::DeleteUser(r));
                match id.filter(|i| m.users.contains_key(i)) {
                    Some(id) => {
                        ensure!(matches!(out, Out::Ok(_)), "deleting a user: {out:?}");
                        m.users.remove(&id);
                    }
                    None => ensure_eq!(out, Out::Err("UserNotFound".into()), "deleting a missing user"),
                }
            }
            2 => {
                let (r, id) = reference(s, &What::User, &m, &st)?;
                let p = s.pick(&PASSWORDS).to_string();
                ctx.log(format!("set password {r:?} {p:?}"));
                let out = go(&Req::SetPassword(r, p.clone()));
                match id.and_then(|i| m.users.get_mut(&i)) {
                    Some(u) => {
                        ensure!(matches!(out, Out::Ok(_)), "setting a password: {out:?}");
                        u.password = Some(p);
                    }
                    None => ensure_eq!(out, Out::Err("UserNotFound".into()), "setting the password of a missing user"),
                }
            }
            3 | 4 | 5 | 6 => {
                let (r, id) = reference(s, &What::User, &m, &st)?;
                let group = step < 5;
                let (o, oid) = reference(s, if group { &What::Group } else { &What::Role }, &m, &st)?;
                let add = step % 2 == 1;
                let req = match step {
                    3 => Req::AddGroup(r, o),
                    4 => Req::RemoveGroup(r, o),
                    5 => Req::AddRole(r, o),
                    _ => Req::RemoveRole(r, o),
                };
                ctx.log(format!("{req:?}"));
                let out = go(&req);
                match (id.and_then(|i| m.users.get_mut(&i)), oid) {
                    (Some(u), Some(o)) => {
                        ensure!(matches!(out, Out::Ok(_)), "{req:?}: {out:?}");
                        let set = if group { &mut u.groups } else { &mut u.roles };
                        if add {
                            set.insert(o);
                        } else {
                            set.remove(&o);
                        }
                    }
                    _ => ensure_eq!(out, Out::Err("UserNotFound".into()), "{req:?} of a missing user, group or role"),
                }
            }
            7 => {
                let name = s.pick(&NAMES).to_string();
                let statements = s.list(0, 3, 2, |s| gen_grant(s, &u));
                ctx.log(format!("create group {name:?} {statements:?}"));
                let taken = m.groups.values().any(|x| x.name == name);
                match (PermissionGroup { name: name.clone(), statements: statements.clone() }).push_into(&db) {
                    Ok(d) => {
                        ensure!(!taken, "a second group {name:?} was created");
                        ensure!(m.groups.insert(d.header.id, MGroup { name, statements }).is_none(), "a new group got the id of another");
                    }
                    Err(e) => ensure!(taken && matches!(e.error, Error::UniqueKeyViolation { .. }), "creating a group: {:?}", e.error),
                }
            }
            8 => {
                let name = s.pick(&NAMES).to_string();
                let ids: Vec<u64> = m.groups.keys().copied().chain([7]).collect();
                let groups: BTreeSet<u64> = (0..s.draw(2)).map(|_| *s.pick(&ids)).collect();
                ctx.log(format!("create role {name:?} {groups:?}"));
                let taken = m.roles.values().any(|x| x.name == name);
                match (Role { name: name.clone(), groups: groups.iter().copied().collect() }).push_into(&db) {
                    Ok(d) => {
                        ensure!(!taken, "a second role {name:?} was created");
                        ensure!(m.roles.insert(d.header.id, MRole { name, groups }).is_none(), "a new role got the id of another");
                    }
                    Err(e) => ensure!(taken && matches!(e.error, Error::UniqueKeyViolation { .. }), "creating a role: {:?}", e.error),
                }
            }
            9 => {
                // editing or deleting a group or role
                let group = s.bool();
                let ids: Vec<u64> = if group { m.groups.keys().copied().collect() } else { m.roles.keys().copied().collect() };
                if ids.is_empty() {
                    continue;
                }
                let id = *s.pick(&ids);
                let delete = s.chance(1, 3);
                ctx.log(format!("{} {} {id}", if delete { "delete" } else { "edit" }, if group { "group" } else { "role" }));
                match (group, delete) {
                    (true, true) => {
                        PermissionGroup::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("a group is missing"))?.delete(&db).or_fail("deleting a group")?;
                        m.groups.remove(&id);
                    }
                    (false, true) => {
                        Role::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("a role is missing"))?.delete(&db).or_fail("deleting a role")?;
                        m.roles.remove(&id);
                    }
                    (true, false) => {
                        let mut d = PermissionGroup::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("a group is missing"))?;
                        d.contents.statements = s.list(0, 3, 2, |s| gen_grant(s, &u));
                        d.update(&db).or_fail("editing a group")?;
                        m.groups.get_mut(&id).unwrap().statements = d.contents.statements.clone();
                        ctx.log(format!("  {:?}", d.contents.statements));
                    }
                    (false, false) => {
                        let mut d = Role::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("a role is missing"))?;
                        let ids: Vec<u64> = m.groups.keys().copied().chain([7]).collect();
                        d.contents.groups = (0..s.draw(2)).map(|_| *s.pick(&ids)).collect();
                        d.update(&db).or_fail("editing a role")?;
                        m.roles.get_mut(&id).unwrap().groups = d.contents.groups.iter().copied().collect();
                        ctx.log(format!("  {:?}", d.contents.groups));
                    }
                }
            }
            10 => {
                // renaming
                let ids: Vec<u64> = m.users.keys().copied().collect();
                let id = *s.pick(&ids);
                let name = s.pick(&NAMES).to_string();
                ctx.log(format!("rename user {id} to {name:?}"));
                let mut d = User::get(&id, &db).or_fail("get")?.ok_or_else(|| Failure::new("a user is missing"))?;
                d.contents.username = name.clone();
                let taken = m.users.iter().any(|(i, x)| x.name == name && *i != id);
                match d.update(&db) {
                    Ok(()) => {
                        ensure!(!taken, "two users have the name {name:?}");
                        m.users.get_mut(&id).unwrap().name = name;
                    }
                    Err(e) => ensure!(taken && matches!(e, Error::UniqueKeyViolation { .. }), "renaming a user: {e:?}"),
                }
            }
            11 => {
                // a password
                let (r, id) = reference(s, &What::User, &m, &st)?;
                let user = id.and_then(|i| m.users.get(&i).map(|u| (i, u)));
                let p = match user {
                    Some((_, MUser { password: Some(p), .. })) if s.chance(2, 3) => p.clone(),
                    _ => s.pick(&PASSWORDS).to_string(),
                };
                ctx.log(format!("authenticate {r:?} {p:?}"));
                let before = dump(&st)?;
                let result = if s.bool() {
                    auth(&st, Authentication::password(r.clone(), SensitiveString(p.clone())).or_fail("password")?, asy)
                } else {
                    st.authenticate_with_password(r.clone(), SensitiveString(p.clone()))
                };
                let what = format!("authenticating {r:?} with {p:?}");
                match user {
                    Some((id, MUser { password: Some(q), .. })) if &p == q => {
                        good += 1;
                        let a = result.or_fail(&what)?;
                        let want = m.rights(IdentityId::User(id)).expect("HARNESS: rights");
                        check_session(&what, &a, &want, &u, s, ctx)?;
                        // the session can be assumed
                        let session = a.session().cloned().expect("HARNESS: session");
                        let again = st.assume_session(session).or_fail("assuming a session")?;
                        check_session("an assumed session", &again, &want, &u, s, ctx)?;
                    }
                    other => {
                        bad += 1;
                        ctx.count(match other {
                            None => "missing user",
                            Some((_, MUser { password: None, .. })) => "no password",
                            _ => "wrong password",
                        });
                        invalid(&what, result)?;
                    }
                }
                ensure_eq!(dump(&st)?, before, "{what}: what is stored");
            }
            12 => {
                // assuming an identity
                let user = s.chance(2, 3);
                let (r, id) = reference(s, if user { &What::User } else { &What::Role }, &m, &st)?;
                let i = if user { IdentityReference::User(r.clone()) } else { IdentityReference::Role(r.clone()) };
                let what = format!("assuming {i:?}");
                ctx.log(what.clone());
                let result = match s.draw(2) {
                    0 if user => User::assume_identity(r, &st),
                    0 => Role::assume_identity(r, &st),
                    _ => assume(&st, i, asy),
                };
                match id.and_then(|i| m.rights(if user { IdentityId::User(i) } else { IdentityId::Role(i) })) {
                    Some(want) => {
                        good += 1;
                        check_session(&what, &result.or_fail(&what)?, &want, &u, s, ctx)?;
                    }
                    None => {
                        bad += 1;
                        invalid(&what, result)?;
                    }
                }
            }
            13 => {
                // a new token
                let user = s.chance(2, 3);
                let (r, id) = reference(s, if user { &What::User } else { &What::Role }, &m, &st)?;
                let i = if user { IdentityReference::User(r.clone()) } else { IdentityReference::Role(r.clone()) };
                ctx.log(format!("create a token for {i:?}"));
                let out = if asy {
                    let a = st.to_async_with_runtime(rt().handle().clone());
                    rt().block_on(async { AuthenticationToken::create_async(i.clone(), &a.admin().await).await })
                } else {
                    AuthenticationToken::create(&i, &db)
                };
                match id {
                    // ids are taken at their word
                    Some(id) => {
                        let d = out.or_fail("creating a token")?;
                        let of = if user { IdentityId::User(id) } else { IdentityId::Role(id) };
                        ensure_eq!(format!("{:?}", d.contents.identity), format!("{of:?}"), "the token's identity");
                        ensure!(m.tokens.iter().all(|t| t.id != d.header.id && t.text.0 != d.contents.token.0), "a token was made twice");
                        m.tokens.push(Token { id: d.header.id, text: d.contents.token.clone(), of, deleted: false });
                    }
                    None => ensure!(matches!(out, Err(Error::InvalidCredentials)), "creating a token for nobody: {out:?}"),
                }
            }
            14 => token_step(s, &st, &m, &u, asy, &mut good, &mut bad, ctx)?,
            15 => {
                if m.tokens.is_empty() {
                    continue;
                }
                let i = s.below(m.tokens.len());
                let t = &mut m.tokens[i];
                ctx.log(format!("delete the token of {:?}", t.of));
                if let Some(d) = AuthenticationToken::get(&t.id, &db).or_fail("get")? {
                    ensure!(!t.deleted, "a deleted token is back");
                    d.delete(&db).or_fail("deleting a token")?;
                    t.deleted = true;
                } else {
                    ensure!(t.deleted, "a token is missing");
                }
            }
            _ => {
                ctx.log("reopen");
                drop(db);
                drop(st);
                if s.bool() {
                    m.authenticated = s.list(0, 2, 1, |s| gen_grant(s, &u));
                }
                st = opened(&m)?;
            }
        }
        check_stored(&st, &m)?;
    }
    if good > 0 && bad > 0 {
        ctx.nontrivial();
    }
    ctx.add("authentications", good);
    ctx.add("failed authentications", bad);
    let _ = Role::collection_name();
    Ok(())
}
/// Authenticating with a token, or something like it.
#[allow(clippy::too_many_arguments)]
fn token_step(s: &mut Source, st: &Storage, m: &Admin, u: &[Resource], asy: bool, good: &mut u64, bad: &mut u64, ctx: &mut Ctx) -> Res {
    if m.tokens.is_empty() {
        return Ok(());
    }
    let t = s.pick(&m.tokens);
    let before = dump(st)?;
    let how = s.weighted(&[6, 1, 1, 1, 1, 1, 1, 1]);
    let what = format!("authenticating with a token of {:?}, deleted: {}, variation {how}", t.of, t.deleted);
    ctx.log(what.clone());
    let alive = !t.deleted;
    let rights = if alive { m.rights(t.of) } else { None };
    // the second half of the handshake, with the token's own secret unless told otherwise
    let finish = |c: &Storage, secret: &str, flip: bool| -> Res<Result<Storage, Error>> {
        let Some(SessionAuthentication::TokenChallenge { nonce, server_timestamp, .. }) = c.session().map(|s| &s.authentication) else {
            fail!("{what}: no challenge: {:?}", c.session());
        };
        let mut hash = AuthenticationToken::compute_challenge_response_blake3(&SensitiveString(secret.into()), nonce, *server_timestamp).as_bytes().to_vec();
        if flip {
            hash[7] ^= 1;
        }
        Ok(auth(c, Authentication::TokenChallengeResponse(Bytes::from(hash)), asy))
    };
    let result = match how {
        0 => {
            if asy {
                let a = st.to_async_with_runtime(rt().handle().clone());
                rt().block_on(async { a.authenticate_with_token(t.id, &t.text).await }).map(|s| s.into_blocking())
            } else {
                st.authenticate_with_token(t.id, &t.text)
            }
        }
        // a changed secret
        1 => {
            let mut x = t.text.0.clone();
            match s.draw(2) {
                0 => x.push('a'),
                1 => {
                    x.pop();
                }
                _ => x = x.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { 'a' }).collect(),
            }
            *bad += 1;
            return invalid(&what, st.authenticate_with_token(t.id, &SensitiveString(x)));
        }
        // another id
        2 => {
            *bad += 1;
            let other = if s.bool() { t.id ^ 1 } else { s.pick(&m.tokens).id };
            let r = st.authenticate_with_token(other, &t.text);
            if other != t.id {
                return invalid(&what, r);
            }
            r
        }
        // the clock of the client is off by at most, or by more than, five minutes
        3 | 4 => {
            let off = if how == 3 { s.range(0, 290) } else { s.range(310, 1 << 30) } as i64 * 1_000_000_000;
            let now = TimestampAsNanoseconds::now().representation();
            let at = TimestampAsNanoseconds::from_representation(if s.bool() { now.saturating_add(off) } else { now.saturating_sub(off) });
            let a = Authentication::Token { id: t.id, now: at, now_hash: Bytes::from(now_hash(at, &t.text.0)), algorithm: TokenChallengeAlgorithm::Blake3 };
            match auth(st, a, asy) {
                Err(e) => Err(e),
                Ok(_) if how == 4 => fail!("{what}: a request off by {off} ns is accepted"),
                Ok(c) => {
                    check_challenge(&what, &c, st, u)?;
                    finish(&c, &t.text.0, false)?
                }
            }
        }
        // a request time that does not belong to its hash
        5 => {
            let at = TimestampAsNanoseconds::now();
            let mut hash = now_hash(at, &t.text.0);
            let mut claimed = at;
            match s.draw(3) {
                0 => claimed = TimestampAsNanoseconds::from_representation(at.representation() + 1),
                1 => hash.truncate(s.below(32)),
                2 => hash.push(0),
                _ => {
                    let i = s.below(32);
                    hash[i] ^= 1 << s.draw(7);
                }
            }
            *bad += 1;
            return invalid(&what, auth(st, Authentication::Token { id: t.id, now: claimed, now_hash: Bytes::from(hash), algorithm: TokenChallengeAlgorithm::Blake3 }, asy));
        }
        // a wrong answer to the challenge; after which the right one is too late
        6 => match st.authenticate(Authentication::token(t.id, &t.text).or_fail("token")?) {
            Err(e) => Err(e),
            Ok(c) => {
                *bad += 1;
                let flip = s.bool();
                invalid(&what, finish(&c, if flip { &t.text.0 } else { "guess" }, flip)?)?;
                invalid("answering a challenge again", finish(&c, &t.text.0, false)?)?;
                return Ok(());
            }
        },
        // an answer is good once
        _ => match st.authenticate(Authentication::token(t.id, &t.text).or_fail("token")?) {
            Err(e) => Err(e),
            Ok(c) => {
                let r = finish(&c, &t.text.0, false)?;
                invalid("answering a challenge twice", finish(&c, &t.text.0, false)?)?;
                r
            }
        },
    };
    match rights {
        Some(want) if how != 4 => {
            *good += 1;
            ctx.count("token authentications");
            check_session(&what, &result.or_fail(&what)?, &want, u, s, ctx)?;
        }
        _ => {
            *bad += 1;
            invalid(&what, result)?;
        }
    }
    ensure_eq!(dump(st)?, before, "{what}: what is stored");
    Ok(())
}
/// While a challenge is unanswered, its session can do nothing.
fn check_challenge(what: &str, c: &Storage, st: &Storage, u: &[Resource]) -> Res {
    let session = c.session().expect("HARNESS: session");
    for r in u {
        for (a, _) in leaves() {
            ensure!(!session.allowed_to(r, &a), "{what}: {a:?} on {r:?} is allowed before the challenge is answered");
        }
    }
    ensure!(matches!(c.list_databases(), Err(Error::PermissionDenied(_))), "{what}: lists databases before the challenge is answered");
    let _ = st;
    Ok(())
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        level: "exploration",
        rule: "histories: at least one authentication (or assumed identity) succeeded and one failed",
        assumptions: &[
            "Permission groups do not name an action both alone and as a part of a wider one in one statement (known finding of C17).",
            "Membership and tokens refer to ids: an id is what a group, role or token stores, whether or not it exists.",
            "Passwords are hashed with cheap argon2 parameters.",
        ],
        sections: vec![section("histories", 5_000, 150_000, histories)],
    }
}
