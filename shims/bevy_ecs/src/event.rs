
use crate::system::Resource;
use crate::system::SystemParam;
use crate::world::World;

pub trait Event: Send + Sync + 'static {}
impl<T: Send + Sync + 'static> Event for T {}

/// Events live until the second `update` after they were sent, as in bevy.
pub struct Events<T> {
    a: Vec<(usize, T)>,
    b: Vec<(usize, T)>,
    count: usize,
}

impl<T> Default for Events<T> {
    fn default() -> Self {
        Self {
            a: vec![],
            b: vec![],
            count: 0,
        }
    }
}

impl<T: Event> Resource for Events<T> {}

impl<T: Event> Events<T> {
    pub fn send(&mut self, t: T) {
        self.b.push((self.count, t));
        self.count += 1;
    }
    pub fn update(&mut self) {
        self.a = std::mem::take(&mut self.b);
    }
    pub fn is_empty(&self) -> bool {
        self.a.is_empty() && self.b.is_empty()
    }
    pub fn len(&self) -> usize {
        self.a.len() + self.b.len()
    }
    pub fn update_system(mut events: crate::system::ResMut<Events<T>>) {
        events.update();
    }
    fn since(&self, from: usize) -> impl Iterator<Item = &T> {
        self.a
            .iter()
            .chain(self.b.iter())
            .filter(move |(i, _)| *i >= from)
            .map(|(_, t)| t)
    }
}

pub struct EventWriter<'w, 's, T: Event> {
    events: &'w mut Events<T>,
    _s: std::marker::PhantomData<&'s ()>,
}

impl<'w, 's, T: Event> EventWriter<'w, 's, T> {
    pub fn send(&mut self, t: T) {
        self.events.send(t)
    }
    pub fn send_batch(&mut self, events: impl Iterator<Item = T>) {
        events.for_each(|t| self.send(t))
    }
    pub fn send_default(&mut self)
    where
        T: Default,
    {
        self.send(T::default())
    }
}

unsafe impl<'a, 'b, T: Event> SystemParam for EventWriter<'a, 'b, T> {
    type Item<'w, 's> = EventWriter<'w, 's, T>;
    type State = ();
    fn init_state(_: &mut World) {}
    unsafe fn get_param<'w, 's>(_: &'s mut (), world: *mut World) -> Self::Item<'w, 's> {
        EventWriter {
            events: (*world).res_raw_mut::<Events<T>>().unwrap_or_else(|| {
                panic!("event {} was not added", std::any::type_name::<T>())
            }),
            _s: std::marker::PhantomData,
        }
    }
}

pub struct EventReader<'w, 's, T: Event> {
    events: &'w Events<T>,
    last: &'s mut usize,
}

impl<'w, 's, T: Event> EventReader<'w, 's, T> {
    pub fn iter(&mut self) -> impl Iterator<Item = &T> {
        let from = *self.last;
        *self.last = self.events.count;
        self.events.since(from)
    }
    pub fn clear(&mut self) {
        *self.last = self.events.count;
    }
    pub fn is_empty(&self) -> bool {
        self.events.since(*self.last).next().is_none()
    }
    pub fn len(&self) -> usize {
        self.events.since(*self.last).count()
    }
}

unsafe impl<'a, 'b, T: Event> SystemParam for EventReader<'a, 'b, T> {
    type Item<'w, 's> = EventReader<'w, 's, T>;
    type State = usize;
    fn init_state(_: &mut World) -> usize {
        0
    }
    unsafe fn get_param<'w, 's>(last: &'s mut usize, world: *mut World) -> Self::Item<'w, 's> {
        EventReader {
            events: (*world).res_raw::<Events<T>>().unwrap_or_else(|| {
                panic!("event {} was not added", std::any::type_name::<T>())
            }),
            last,
        }
    }
}

/// Reader outside of systems, with its own cursor.
pub struct ManualEventReader<T>(usize, std::marker::PhantomData<T>);
impl<T> Default for ManualEventReader<T> {
    fn default() -> Self {
        Self(0, std::marker::PhantomData)
    }
}
impl<T: Event> ManualEventReader<T> {
    pub fn iter<'a>(&mut self, events: &'a Events<T>) -> impl Iterator<Item = &'a T> {
        let from = self.0;
        self.0 = events.count;
        events.since(from)
    }
}

