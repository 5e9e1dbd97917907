//! Stands in for the crate of the same name: the operating system is the simulator.
use io_trait::Io;
use nanosim::{
    exit::attach,
    io::{SimEntry, SimFile, SimInstant, SimIo, SimMetadata, SimStdout},
};
use std::{io, sync::OnceLock};

static SIM: OnceLock<SimIo> = OnceLock::new();

fn sim() -> &'static SimIo {
    SIM.get_or_init(attach)
}

#[derive(Default)]
pub struct RealIo();

impl Io for RealIo {
    type Args = std::vec::IntoIter<String>;
    type Stdout = SimStdout;
    type File = SimFile;
    type Metadata = SimMetadata;
    type DirEntry = SimEntry;
    type Instant = SimInstant;
    fn args(&self) -> Self::Args {
        sim().args()
    }
    fn stdout(&self) -> SimStdout {
        sim().stdout()
    }
    fn metadata(&self, path: &str) -> io::Result<SimMetadata> {
        sim().metadata(path)
    }
    fn create_dir(&self, path: &str) -> io::Result<()> {
        sim().create_dir(path)
    }
    fn create(&self, path: &str) -> io::Result<SimFile> {
        sim().create(path)
    }
    fn open(&self, path: &str) -> io::Result<SimFile> {
        sim().open(path)
    }
    fn now(&self) -> SimInstant {
        sim().now()
    }
    fn read_dir(&self, path: &str) -> io::Result<Vec<SimEntry>> {
        sim().read_dir(path)
    }
    fn current_dir(&self) -> io::Result<String> {
        sim().current_dir()
    }
    fn set_current_dir(&self, path: &str) -> io::Result<()> {
        sim().set_current_dir(path)
    }
}
