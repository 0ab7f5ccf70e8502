//! Names what has to be there in every configuration.
pub use crabslab::{
    array_index, array_index_mut, offset::Offset, slice_index, slice_index_mut, Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem,
};

#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
#[offsets]
pub struct Item {
    pub a: u64,
    pub b: [u8; 3],
    pub c: Option<Id<Item>>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub enum Kind {
    #[default]
    None,
    One(Item),
    Two { a: f32, b: Array<Item> },
}

pub fn slab(i: Item) -> (Item, [u8; 3]) {
    let mut s = CpuSlab::new(vec![]);
    let id = s.append(&i);
    (s.read(id), s.read(id + Item::OFFSET_OF_B))
}

#[cfg(feature = "alloc")]
pub mod alloc {
    use craballoc::prelude::*;

    pub fn values<R: IsRuntime>(r: impl AsRef<R>, u: R::BufferUsages) -> usize {
        let a = SlabAllocator::<R>::new(r, u);
        let v = a.new_value(super::Item::default());
        let x = a.new_array([1u32, 2]);
        a.commit();
        let _ = v.into_gpu_only();
        x.len()
    }

    pub fn cpu() -> usize {
        values(CpuRuntime, ())
    }

    #[cfg(feature = "wgpu")]
    pub fn with_wgpu(r: WgpuRuntime, u: <WgpuRuntime as IsRuntime>::BufferUsages) -> usize {
        values(r, u)
    }
}
