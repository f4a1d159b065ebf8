pub trait ConvertTransaction<E> { fn convert_transaction(&self, transaction: pallet_ethereum::Transaction) -> E; }
