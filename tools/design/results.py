T = {'C01': '29', 'C02': '31', 'C03': '26', 'C04': '31', 'C05': '34', 'C06': '34', 'C07': '23', 'C08': '37', 'C09': '47', 'C10': '32',
     'C11': '24', 'C12': '24', 'C13': '24', 'C14': '20', 'C15': '22', 'C16': '21', 'C17': '28', 'C18': '18', 'C19': '21', 'C20': '28',
     'C21': '21', 'C22': '26', 'C23': '25', 'C24': '73', 'C25': '33', 'C26': '36', 'C27': '24', 'C28': '24', 'C29': '23', 'C30': '31',
     'C31': '29', 'C32': '37', 'C33': '28', 'C34': '50', 'C35': '35'}
S = {
 'C04-no-data': 'caught; missed until starts without data were generated',
 'C11-last-moment': 'caught; missed until peers acted between milliseconds',
 'C12-one-waiter': 'caught; missed until waits ran next to a task that never waits',
 'C18-last-millisecond': 'caught; missed until the early bound was exact',
 'C01-idle-signal': 'caught; missed until waits were interrupted by signals',
 'C12-many-events': 'caught',
 'C25-plain-ref': 'caught (ThreadSanitizer build)',
 'C24-shrunk-class': 'caught (small reuse cache build)',
 'C26-reset-on-empty': 'caught; missed until reads and writes were interleaved',
 'C29-shared-events': 'caught (ThreadSanitizer build)',
}
