"""Property id -> check."""
from .checks import loader, map as fmap, update, backend, motion, config, queries, scratch, geometry, unit, whole

REG = {'C01': loader.c01, 'C02': loader.c02, 'C03': loader.c03, 'C04': loader.c04,
       'C05': fmap.c05, 'C06': update.c06, 'C07': fmap.c07, 'C08': update.c08, 'C09': update.c09, 'C10': update.c10, 'C11': update.c11,
       'C12': unit.c12, 'C25': whole.c25, 'C26': whole.c26, 'C13': motion.c13, 'C14': motion.c14, 'C20': config.c20, 'C28': scratch.c28, 'C21': geometry.c21, 'C22': geometry.c22, 'C32': geometry.c32, 'C24': geometry.c24, 'C23': geometry.c23, 'C35': queries.c35, 'C36': queries.c36, 'C29': motion.c29, 'C31': motion.c31,
       'C15': update.c15, 'C16': update.c16, 'C17': update.c17, 'C18': backend.c18, 'C19': backend.c19, 'C27': backend.c27, 'C30': fmap.c30, 'C33': update.c33, 'C34': backend.c34}
