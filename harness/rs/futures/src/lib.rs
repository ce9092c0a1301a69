//! A queue and a stream with the behaviour documented for the real ones, without their lock-free machinery.
pub mod stream { use core::pin::Pin; use core::task::{Context, Poll}; pub trait Stream { type Item; fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>; } pub trait FusedStream: Stream { fn is_terminated(&self) -> bool; } }
pub use stream::{Stream, FusedStream}; pub use core::future::Future;
pub mod task { pub use core::task::*; }
pub mod channel { pub mod mpsc {
  use core::pin::Pin; use core::task::{Context, Poll}; use std::rc::Rc; use core::cell::{Cell, RefCell};
  struct Q<T> { items: RefCell<core::mem::ManuallyDrop<[Option<T>; 4]>>, head: Cell<usize>, tail: Cell<usize>, senders: Cell<usize>, open: Cell<bool>, done: Cell<bool>, cap: usize }
  pub struct UnboundedSender<T>(Rc<Q<T>>); pub struct UnboundedReceiver<T>(Rc<Q<T>>);
  #[derive(Debug)] pub struct SendError; #[derive(Debug)] pub struct TrySendError<T>(T, bool); #[derive(Debug)] pub struct TryRecvError(());
  impl<T> TrySendError<T> { pub fn into_inner(self) -> T { self.0 } pub fn is_disconnected(&self) -> bool { !self.1 } pub fn is_full(&self) -> bool { self.1 } }
  pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let q = Rc::new(Q { items: RefCell::new(core::mem::ManuallyDrop::new([None, None, None, None])), head: Cell::new(0), tail: Cell::new(0), senders: Cell::new(1), open: Cell::new(true), done: Cell::new(false), cap: usize::MAX }); (UnboundedSender(q.clone()), UnboundedReceiver(q)) }
  impl<T> UnboundedSender<T> { pub fn unbounded_send(&self, t: T) -> Result<(), TrySendError<T>> { if !self.0.open.get() { return Err(TrySendError(t, false)); } let i = self.0.tail.get(); core::mem::forget(core::mem::replace(&mut self.0.items.borrow_mut()[i], Some(t))); self.0.tail.set(i + 1); Ok(()) } pub fn is_closed(&self) -> bool { !self.0.open.get() } pub fn close_channel(&self) { self.0.open.set(false) } pub fn disconnect(&mut self) { self.0.open.set(false) } pub fn start_send(&mut self, t: T) -> Result<(), SendError> { self.unbounded_send(t).map_err(|_| SendError) } pub fn same_receiver(&self, o: &Self) -> bool { Rc::ptr_eq(&self.0, &o.0) } pub fn len(&self) -> usize { self.0.tail.get() - self.0.head.get() } pub fn is_empty(&self) -> bool { self.len() == 0 } }
  impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { self.0.senders.set(self.0.senders.get() + 1); UnboundedSender(self.0.clone()) } }
  impl<T> Drop for UnboundedSender<T> { fn drop(&mut self) { self.0.senders.set(self.0.senders.get() - 1) } }
  impl<T> UnboundedReceiver<T> { fn take(&self) -> Option<T> { let i = self.0.head.get(); if i == self.0.tail.get() { return None; } self.0.head.set(i + 1); self.0.items.borrow_mut()[i].take() } pub fn close(&mut self) { self.0.open.set(false) } pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> { match self.take() { Some(t) => Ok(Some(t)), None if self.0.senders.get() == 0 || !self.0.open.get() => { self.0.done.set(true); Ok(None) } None => Err(TryRecvError(())) } } }
  impl<T> crate::FusedStream for UnboundedReceiver<T> { fn is_terminated(&self) -> bool { self.0.done.get() } }
  impl<T> Drop for UnboundedReceiver<T> { fn drop(&mut self) { self.0.open.set(false) } }
  impl<T> crate::Stream for UnboundedReceiver<T> { type Item = T; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<T>> { match self.take() { Some(t) => Poll::Ready(Some(t)), None if self.0.senders.get() == 0 || !self.0.open.get() => { self.0.done.set(true); Poll::Ready(None) } None => Poll::Pending } } }
  impl<T> Unpin for UnboundedReceiver<T> {}
  pub struct Sender<T>(UnboundedSender<T>); pub struct Receiver<T>(UnboundedReceiver<T>);
  pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { let q = Rc::new(Q { items: RefCell::new(core::mem::ManuallyDrop::new([None, None, None, None])), head: Cell::new(0), tail: Cell::new(0), senders: Cell::new(1), open: Cell::new(true), done: Cell::new(false), cap: n + 1 }); (Sender(UnboundedSender(q.clone())), Receiver(UnboundedReceiver(q))) }
  impl<T> Sender<T> { pub fn try_send(&mut self, t: T) -> Result<(), TrySendError<T>> { if self.0.len() >= self.0.0.cap { return Err(TrySendError(t, true)); } self.0.unbounded_send(t) } pub fn start_send(&mut self, t: T) -> Result<(), SendError> { self.try_send(t).map_err(|_| SendError) } pub fn is_closed(&self) -> bool { self.0.is_closed() } pub fn close_channel(&mut self) { self.0.close_channel() } pub fn disconnect(&mut self) { self.0.disconnect() } }
  impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone()) } }
  impl<T> Receiver<T> { pub fn close(&mut self) { self.0.close() } pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> { self.0.try_next() } }
  impl<T> crate::FusedStream for Receiver<T> { fn is_terminated(&self) -> bool { self.0.is_terminated() } }
  impl<T> crate::Stream for Receiver<T> { type Item = T; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { Pin::new(&mut self.0).poll_next(cx) } }
  impl<T> Unpin for Receiver<T> {}
} }
