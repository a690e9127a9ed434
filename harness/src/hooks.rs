//! What the checks need of binate's private parts. Without the hooks (a
//! version of the code they do not compile with) the checks that can do
//! without still run.
pub const HOOKS: bool = cfg!(binate_verif);

#[cfg(binate_verif)]
mod imp {
    pub use binate::connection::verif::{Buffers, Requester};
    use binate::connection::StreamIdProvider;

    pub fn provider_at(n: i32) -> StreamIdProvider {
        StreamIdProvider::verif_at(n)
    }

    pub fn protocol_error(code: binate::Code, cause: Option<String>) -> binate::Error {
        binate::Error::verif_protocol(code, cause)
    }
}

#[cfg(not(binate_verif))]
mod imp {
    use binate::connection::{DuplexConnection, StreamIdProvider};
    use binate::frame::DecodeError;
    use binate::{Metadata, Mono, Payload, Result};
    use bytes::Buf;
    use std::time::Duration;

    fn none() -> ! {
        unreachable!("built without the hooks")
    }

    pub fn provider_at(_: i32) -> StreamIdProvider {
        none()
    }

    pub fn protocol_error(_: binate::Code, _: Option<String>) -> binate::Error {
        none()
    }

    pub struct Buffers<T>(std::marker::PhantomData<T>);

    impl<T: Buf> Buffers<T> {
        pub fn new() -> Self {
            none()
        }
        pub fn push(&mut self, _: T) {
            none()
        }
        pub fn pieces(&self) -> usize {
            none()
        }
        pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
            none()
        }
    }

    impl<T: Buf> Buf for Buffers<T> {
        fn remaining(&self) -> usize {
            none()
        }
        fn chunk(&self) -> &[u8] {
            none()
        }
        fn advance(&mut self, _: usize) {
            none()
        }
    }

    #[derive(Clone)]
    pub struct Requester;

    impl Requester {
        pub async fn new(
            _: bool,
            _: impl DuplexConnection + 'static,
            _: Duration,
            _: Option<usize>,
            _: Option<i32>,
            _: &[u32],
        ) -> Requester {
            none()
        }
        pub fn fire_and_forget(&self, _: Payload) -> Result<()> {
            none()
        }
        pub fn metadata_push(&self, _: Metadata) -> Mono<Result<()>> {
            none()
        }
        pub fn close(&mut self) {
            none()
        }
    }
}

pub use imp::*;
