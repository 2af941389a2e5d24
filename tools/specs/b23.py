ID='b23-short-bitmap'
PROP='C15'
NEEDS='a certificate whose bitmap ends in a byte without voters (more than eight validators)'
BREAKS='the decoded certificate differs from the encoded one'
EDITS=[('src/codec.rs','''            .append(&self.address_bitmap.to_vec());''','''            .append(&{
                // Nobody voted there.
                let mut bits = self.address_bitmap.to_vec();
                while bits.len() > 1 && bits.last() == Some(&0) {
                    bits.pop();
                }
                bits
            });''')]
MAIN='''use bytes::Bytes;
use overlord::types::AggregatedSignature;
fn main() {
    for bm in [vec![0xffu8, 0x00], vec![0xf0], vec![1, 2, 0x80], vec![0, 0]] {
        let s = AggregatedSignature { signature: Bytes::from(vec![1, 2, 3]), address_bitmap: Bytes::from(bm) };
        let d: AggregatedSignature = rlp::decode(&rlp::encode(&s)).unwrap();
        if d != s {
            println!("BROKEN: {:?} is not {:?}", d, s);
            std::process::exit(1);
        }
    }
    println!("ok");
}
'''
