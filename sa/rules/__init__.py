RULES = {
    'C01': ('containers note every change', 'c01'),
    'C02': ('attribute access loads and notes', 'c02'),
    'C03': ('containers share nothing', 'c03'),
    'C04': ('commit stores everything that changed, in one transaction', 'c04'),
    'C05': ('a failed commit can be repeated', 'c05'),
    'C06': ('abort and sync discard what is stale', 'c06'),
    'C07': ('conflicting reads and writes are detected', 'c07'),
    'C08': ('one live object per oid', 'c08'),
    'C09': ('a record holds its object', 'c09'),
    'C10': ('transactions are durable before they are done', 'c10'),
    'C12': ('a failed transaction leaves nothing behind', 'c12'),
    'C11': ('an incomplete transaction is never taken for a complete one', 'c11'),
    'C15': ('packing keeps every record committed meanwhile', 'c15'),
    'C16': ('a crash during a pack never loses the storage', 'c16'),
    'C17': ('removed objects are reported', 'c17'),
    'C18': ('an oid in use is never handed out', 'c18'),
    'C14': ('a damaged file is cut only when asked, at its tail', 'c14'),
    'C13': ('a storage file is locked before it is written', 'c13'),
    'C21': ('a commit is acknowledged when it is done and all others are told', 'c21'),
    'C22': ('no record is served that must first be invalidated', 'c22'),
    'C23': ('a failing client does not stop the server', 'c23'),
    'C24': ('every storage implements the interface', 'c24'),
    'C25': ('socket addresses', 'c25'),
    'C26': ('references and failures in the C extension', 'c26'),
    'C27': ('BTree nodes lose nothing', 'c27'),
    'C19': ('what is written is what is read', 'c19'),
    'C28': ('BTree search and traversal', 'c28'),
    'C29': ('the state of an object', 'c29'),
    'C38': ('searches of the records', 'c38'),
    'C33': ('compact arrays', 'c33'),
    'C20': ('client and server agree on the protocol', 'c20'),
}
