//! A stand-in for `octocrate` (the GitHub REST client): the part of its API
//! that astro-run uses, answered from a thread-local fake GitHub instead of
//! the network.  Every request made is recorded with the credentials it
//! carried, so a check can require that the right repository, commit or pull
//! request was consulted with the right kind of token.
//!
//! The fake keeps GitHub's documented paging rules: "list pull request files"
//! returns `per_page` files of page `page` (defaults 30 and 1, maximum 100).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- fake state

#[derive(Clone, Debug, Default)]
pub struct FakeGithub {
  /// (owner, repo, sha) -> changed files (None: the response has no `files`)
  pub commits: HashMap<(String, String, String), Option<Vec<String>>>,
  /// (owner, repo, number) -> changed files
  pub pulls: HashMap<(String, String, i64), Vec<String>>,
  /// (owner, repo) -> installation id
  pub installations: HashMap<(String, String), i64>,
  /// token strings the API accepts for repository reads
  pub valid_tokens: Vec<String>,
  /// app ids the API accepts for app endpoints
  pub valid_apps: Vec<String>,
  /// fail (as an HTTP error would) the n-th request (0-based)
  pub fail_requests: Vec<usize>,
  pub calls: Vec<Call>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
  pub endpoint: String,
  pub credential: Option<Credential>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Credential {
  Personal(String),
  App(String),
  Installation(i64),
}

/// One fake per OS thread: each generated case runs on its own thread with a
/// single-threaded executor, so cases cannot see one another's fake.
thread_local! {
  static FAKE: RefCell<Option<Arc<Mutex<FakeGithub>>>> = const { RefCell::new(None) };
}

pub fn install_fake(fake: FakeGithub) -> Arc<Mutex<FakeGithub>> {
  let shared = Arc::new(Mutex::new(fake));
  FAKE.with(|f| *f.borrow_mut() = Some(shared.clone()));
  shared
}

pub fn remove_fake() {
  FAKE.with(|f| *f.borrow_mut() = None);
}

fn fake() -> Option<Arc<Mutex<FakeGithub>>> {
  FAKE.with(|f| f.borrow().clone())
}

// -------------------------------------------------------------------- errors

#[derive(Debug, Clone)]
pub struct APIErrorResponse {
  pub message: String,
  pub documentation_url: String,
}

#[derive(Debug, Clone)]
pub enum Error {
  Error(String),
  RequestFailed(APIErrorResponse),
}

impl fmt::Display for APIErrorResponse {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "Error: {}", self.message)
  }
}

impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      Error::Error(e) => write!(f, "Error: {}", e),
      Error::RequestFailed(r) => write!(f, "Request failed with {}", r),
    }
  }
}

impl std::error::Error for Error {}

// --------------------------------------------------------------- credentials

pub trait ExpirableToken: Send + Sync {
  fn get_token(&self) -> Option<String>;
  fn credential(&self) -> Option<Credential>;
}

#[derive(Clone)]
pub struct PersonalAccessToken {
  token: String,
}

impl PersonalAccessToken {
  pub fn new(token: impl Into<String>) -> Self {
    Self { token: token.into() }
  }
}

impl ExpirableToken for PersonalAccessToken {
  fn get_token(&self) -> Option<String> {
    Some(self.token.clone())
  }
  fn credential(&self) -> Option<Credential> {
    Some(Credential::Personal(self.token.clone()))
  }
}

pub struct AppAuthorization {
  app_id: String,
  private_key: String,
}

impl AppAuthorization {
  pub fn new(app_id: impl Into<String>, private_key: impl Into<String>) -> Self {
    Self {
      app_id: app_id.into(),
      private_key: private_key.into(),
    }
  }
}

impl ExpirableToken for AppAuthorization {
  fn get_token(&self) -> Option<String> {
    Some(format!("jwt:{}:{}", self.app_id, self.private_key))
  }
  fn credential(&self) -> Option<Credential> {
    Some(Credential::App(format!("{}:{}", self.app_id, self.private_key)))
  }
}

#[derive(Clone, Debug)]
pub struct InstallationToken {
  pub expires_at: String,
  pub token: String,
  installation: i64,
}

impl ExpirableToken for InstallationToken {
  fn get_token(&self) -> Option<String> {
    Some(self.token.clone())
  }
  fn credential(&self) -> Option<Credential> {
    Some(Credential::Installation(self.installation))
  }
}

pub struct APIConfig {
  pub base_url: String,
  pub token: Option<Arc<dyn ExpirableToken>>,
}

pub type SharedAPIConfig = Arc<APIConfig>;

impl APIConfig {
  pub fn with_token<T: ExpirableToken + 'static>(token: T) -> Self {
    APIConfig {
      base_url: "https://api.github.com".to_string(),
      token: Some(Arc::new(token)),
    }
  }

  pub fn with_base_url(base_url: &str) -> Self {
    APIConfig {
      base_url: base_url.to_string(),
      token: None,
    }
  }

  pub fn new<T: ExpirableToken + 'static>(base_url: &str, token: T) -> SharedAPIConfig {
    Arc::new(APIConfig {
      base_url: base_url.to_string(),
      token: Some(Arc::new(token)),
    })
  }

  pub fn shared(self) -> SharedAPIConfig {
    Arc::new(self)
  }
}

impl Default for APIConfig {
  fn default() -> Self {
    APIConfig {
      base_url: "https://api.github.com".to_string(),
      token: None,
    }
  }
}

// ------------------------------------------------------------------ requests

#[derive(Clone, Debug)]
enum Endpoint {
  Commit(String, String, String),
  PullFiles(String, String, i64),
  RepoInstallation(String, String),
  InstallationAccessToken(i64),
}

/// What one endpoint answers.
pub trait Reply: Sized {
  fn reply(answer: Answer) -> Self;
}

pub enum Answer {
  Commit(String, Option<Vec<String>>),
  Files(Vec<String>),
  Installation(i64),
  Token(i64),
}

/// Query parameters, as a name -> value map.
pub trait QueryParams {
  fn params(&self) -> BTreeMap<String, i64>;
}

impl QueryParams for () {
  fn params(&self) -> BTreeMap<String, i64> {
    BTreeMap::new()
  }
}

#[derive(Clone, Debug, Default)]
pub struct PageQuery {
  pub per_page: Option<i64>,
  pub page: Option<i64>,
}

impl PageQuery {
  pub fn builder() -> PageQueryBuilder {
    PageQueryBuilder(PageQuery::default())
  }
}

impl QueryParams for PageQuery {
  fn params(&self) -> BTreeMap<String, i64> {
    let mut map = BTreeMap::new();
    if let Some(p) = self.per_page {
      map.insert("per_page".to_string(), p);
    }
    if let Some(p) = self.page {
      map.insert("page".to_string(), p);
    }
    map
  }
}

pub struct PageQueryBuilder(PageQuery);

impl PageQueryBuilder {
  pub fn per_page(mut self, v: impl Into<i64>) -> Self {
    self.0.per_page = Some(v.into());
    self
  }
  pub fn page(mut self, v: impl Into<i64>) -> Self {
    self.0.page = Some(v.into());
    self
  }
  pub fn build(self) -> PageQuery {
    self.0
  }
}

pub struct Request<Body, Query, Response> {
  endpoint: Endpoint,
  config: SharedAPIConfig,
  query: BTreeMap<String, i64>,
  _p: PhantomData<fn(Body, Query) -> Response>,
}

impl<Body, Query: QueryParams, Response: Reply> Request<Body, Query, Response> {
  fn new(config: &SharedAPIConfig, endpoint: Endpoint) -> Self {
    Self {
      endpoint,
      config: config.clone(),
      query: BTreeMap::new(),
      _p: PhantomData,
    }
  }

  pub fn query(mut self, query: &Query) -> Self {
    self.query.extend(query.params());
    self
  }

  pub fn header<K: Into<String>, V: Into<String>>(self, _key: K, _value: V) -> Self {
    self
  }

  pub fn body(self, _body: &Body) -> Self {
    self
  }

  pub async fn send(self) -> Result<Response, Error> {
    // A real request is a suspension point.
    YieldOnce(false).await;

    let Some(fake) = fake() else {
      return Err(Error::Error("no network".to_string()));
    };
    let mut fake = fake.lock().unwrap();
    let n = fake.calls.len();
    let credential = self.config.token.as_ref().and_then(|t| t.credential());
    let name = match &self.endpoint {
      Endpoint::Commit(o, r, s) => format!("GET /repos/{o}/{r}/commits/{s}"),
      Endpoint::PullFiles(o, r, p) => format!("GET /repos/{o}/{r}/pulls/{p}/files"),
      Endpoint::RepoInstallation(o, r) => format!("GET /repos/{o}/{r}/installation"),
      Endpoint::InstallationAccessToken(i) => format!("POST /app/installations/{i}/access_tokens"),
    };
    fake.calls.push(Call {
      endpoint: name,
      credential: credential.clone(),
    });

    if fake.fail_requests.contains(&n) {
      return Err(Error::Error("Request failed with 502".to_string()));
    }

    let denied = || {
      Err(Error::RequestFailed(APIErrorResponse {
        message: "Bad credentials".to_string(),
        documentation_url: String::new(),
      }))
    };
    let not_found = || {
      Err(Error::RequestFailed(APIErrorResponse {
        message: "Not Found".to_string(),
        documentation_url: String::new(),
      }))
    };

    let answer = match self.endpoint {
      Endpoint::Commit(o, r, s) => {
        if !fake.can_read(&credential, &o, &r) {
          return denied();
        }
        match fake.commits.get(&(o, r, s.clone())) {
          Some(files) => Answer::Commit(s, files.clone()),
          None => return not_found(),
        }
      }
      Endpoint::PullFiles(o, r, p) => {
        if !fake.can_read(&credential, &o, &r) {
          return denied();
        }
        let per_page = self.query.get("per_page").copied().unwrap_or(30).clamp(1, 100) as usize;
        let page = self.query.get("page").copied().unwrap_or(1).max(1) as usize;
        match fake.pulls.get(&(o, r, p)) {
          Some(files) => Answer::Files(
            files
              .iter()
              .skip((page - 1) * per_page)
              .take(per_page)
              .cloned()
              .collect(),
          ),
          None => return not_found(),
        }
      }
      Endpoint::RepoInstallation(o, r) => match &credential {
        Some(Credential::App(a)) if fake.valid_apps.contains(a) => {
          match fake.installations.get(&(o, r)) {
            Some(id) => Answer::Installation(*id),
            None => return not_found(),
          }
        }
        _ => return denied(),
      },
      Endpoint::InstallationAccessToken(id) => match &credential {
        Some(Credential::App(a)) if fake.valid_apps.contains(a) => {
          if !fake.installations.values().any(|i| *i == id) {
            return not_found();
          }
          Answer::Token(id)
        }
        _ => return denied(),
      },
    };

    Ok(Response::reply(answer))
  }
}

impl FakeGithub {
  fn can_read(&self, credential: &Option<Credential>, owner: &str, repo: &str) -> bool {
    match credential {
      Some(Credential::Personal(t)) => self.valid_tokens.contains(t),
      Some(Credential::Installation(i)) => {
        self.installations.get(&(owner.to_string(), repo.to_string())) == Some(i)
      }
      _ => false,
    }
  }
}

struct YieldOnce(bool);

impl std::future::Future for YieldOnce {
  type Output = ();
  fn poll(
    mut self: std::pin::Pin<&mut Self>,
    cx: &mut std::task::Context<'_>,
  ) -> std::task::Poll<()> {
    if self.0 {
      return std::task::Poll::Ready(());
    }
    self.0 = true;
    cx.waker().wake_by_ref();
    std::task::Poll::Pending
  }
}

// ----------------------------------------------------------------- responses

#[derive(Clone, Debug)]
pub struct DiffEntry {
  pub filename: String,
  pub sha: String,
  pub previous_filename: Option<String>,
}

fn entry(filename: String) -> DiffEntry {
  DiffEntry {
    filename,
    sha: String::new(),
    previous_filename: None,
  }
}

#[derive(Clone, Debug)]
pub struct Commit {
  pub sha: String,
  pub files: Option<Vec<DiffEntry>>,
}

impl Reply for Commit {
  fn reply(answer: Answer) -> Self {
    match answer {
      Answer::Commit(sha, files) => Commit {
        sha,
        files: files.map(|f| f.into_iter().map(entry).collect()),
      },
      _ => unreachable!(),
    }
  }
}

impl Reply for Vec<DiffEntry> {
  fn reply(answer: Answer) -> Self {
    match answer {
      Answer::Files(files) => files.into_iter().map(entry).collect(),
      _ => unreachable!(),
    }
  }
}

#[derive(Clone, Debug)]
pub struct Installation {
  pub id: i64,
}

impl Reply for Installation {
  fn reply(answer: Answer) -> Self {
    match answer {
      Answer::Installation(id) => Installation { id },
      _ => unreachable!(),
    }
  }
}

impl Reply for InstallationToken {
  fn reply(answer: Answer) -> Self {
    match answer {
      Answer::Token(id) => InstallationToken {
        expires_at: "2999-01-01T00:00:00Z".to_string(),
        token: format!("ghs_{}", id),
        installation: id,
      },
      _ => unreachable!(),
    }
  }
}

// ---------------------------------------------------------------------- APIs

pub mod repos {
  use super::*;

  pub mod get_commit {
    pub use crate::PageQuery as Query;
    pub type Response = crate::Commit;
  }

  #[derive(Clone)]
  pub struct GitHubReposAPI {
    pub(crate) config: SharedAPIConfig,
  }

  impl GitHubReposAPI {
    pub fn new(config: &SharedAPIConfig) -> Self {
      Self { config: config.clone() }
    }

    pub fn get_commit(
      &self,
      owner: impl Into<String>,
      repo: impl Into<String>,
      ref_: impl Into<String>,
    ) -> Request<(), get_commit::Query, get_commit::Response> {
      Request::new(
        &self.config,
        Endpoint::Commit(owner.into(), repo.into(), ref_.into()),
      )
    }
  }
}

pub mod pulls {
  use super::*;

  pub mod list_files {
    pub use crate::PageQuery as Query;
    pub type Response = Vec<crate::DiffEntry>;
  }

  #[derive(Clone)]
  pub struct GitHubPullsAPI {
    pub(crate) config: SharedAPIConfig,
  }

  impl GitHubPullsAPI {
    pub fn new(config: &SharedAPIConfig) -> Self {
      Self { config: config.clone() }
    }

    pub fn list_files(
      &self,
      owner: impl Into<String>,
      repo: impl Into<String>,
      pull_number: impl Into<i64>,
    ) -> Request<(), list_files::Query, list_files::Response> {
      Request::new(
        &self.config,
        Endpoint::PullFiles(owner.into(), repo.into(), pull_number.into()),
      )
    }
  }
}

pub mod apps {
  use super::*;

  pub mod create_installation_access_token {
    pub struct Request;
    pub type Response = crate::InstallationToken;
  }

  pub mod get_repo_installation {
    pub type Response = crate::Installation;
  }

  #[derive(Clone)]
  pub struct GitHubAppsAPI {
    pub(crate) config: SharedAPIConfig,
  }

  impl GitHubAppsAPI {
    pub fn new(config: &SharedAPIConfig) -> Self {
      Self { config: config.clone() }
    }

    pub fn get_repo_installation(
      &self,
      owner: impl Into<String>,
      repo: impl Into<String>,
    ) -> Request<(), (), get_repo_installation::Response> {
      Request::new(
        &self.config,
        Endpoint::RepoInstallation(owner.into(), repo.into()),
      )
    }

    pub fn create_installation_access_token(
      &self,
      installation_id: impl Into<i64>,
    ) -> Request<
      create_installation_access_token::Request,
      (),
      create_installation_access_token::Response,
    > {
      Request::new(
        &self.config,
        Endpoint::InstallationAccessToken(installation_id.into()),
      )
    }
  }
}

pub struct GitHubAPI {
  pub apps: apps::GitHubAppsAPI,
  pub pulls: pulls::GitHubPullsAPI,
  pub repos: repos::GitHubReposAPI,
}

impl GitHubAPI {
  pub fn new(config: &SharedAPIConfig) -> Self {
    Self {
      apps: apps::GitHubAppsAPI::new(config),
      pulls: pulls::GitHubPullsAPI::new(config),
      repos: repos::GitHubReposAPI::new(config),
    }
  }
}
