REGISTRY = {
    'C01': ('decor', 'c01'),
    'C02': ('decor', 'c02'),
    'C03': ('decor', 'c03'),
    'C04': ('decor', 'c04'),
    'C05': ('decor', 'c05'),
    'C06': ('records', 'c06'),
    'C07': ('quiet', 'c07'),
    'C08': ('process', 'c08'),
    'C09': ('process', 'c09'),
    'C10': ('pool', 'c10'),
    'C11': ('pool', 'c11'),
    'C12': ('settings', 'c12'),
    'C13': ('settings', 'c13'),
    'C14': ('locks', 'c14'),
    'C15': ('files', 'c15'),
    'C16': ('files', 'c16'),
    'C17': ('files', 'c17'),
    'C18': ('handlers', 'c18'),
    'C19': ('handlers', 'c19'),
    'C20': ('threads', 'c20'),
    'C21': ('threads', 'c21'),
    'C22': ('classes', 'c22'),
    'C23': ('manual', 'c23'),
    'C24': ('manual', 'c24'),
    'C25': ('manual', 'c25'),
    'C26': ('fields', 'c26'),
    'C27': ('encode', 'c27'),
    'C28': ('bridge', 'c28'),
    'C29': ('asserts', 'c29'),
    'C30': ('namespace', 'c30'),
    'C31': ('names', 'c31'),
    'C32': ('lines', 'c32'),
    'C33': ('shapes', 'c33'),
    'C34': ('keeps', 'c34'),
    'C35': ('limits', 'c35'),
    'C36': ('limits', 'c36'),
    'C38': ('traces', 'c38'),
    'C37': ('limits', 'c37'),
}
