"""sources and libraries of everything that contains a registry"""
from .meters import ABSL
SPECTATOR = ['spectator/' + x for x in ('common_refs.cc', 'compressed_buffer.cc', 'counter.cc', 'dist_summary.cc', 'gauge.cc', 'gzip.cc', 'http_client.cc', 'max_gauge.cc', 'monotonic_counter.cc',
                                        'monotonic_counter_uint.cc', 'monotonic_sampled.cc', 'percentile_buckets.cc', 'registry.cc', 'smile.cc', 'string_pool.cc', 'strings.cc', 'timer.cc')] + ['util/logger.cc', 'metatron/metatron_sample.cc']
SERVER = ['server/' + x for x in ('spectatord.cc', 'local_server.cc', 'udp_server.cc', 'proc_utils.cc')]
LIBS = ABSL + ['-lcurl', '-lz', '-lxxhash', '-lspdlog', '-lfmt', '-lpthread']
