"""(re)write known_findings.json: the defects repaired by fix: commits in /repo (they suppress nothing) and the known ones"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 'operator precedence in Tlp.get_lower_address': ('P03', 'Tlp.get_lower_address dropped the DW address bits for unaligned requests'),
 'dead length and IO/configuration checks in Tlp.check': ('P05', 'Tlp.check never rejected configuration/IO requests of the wrong length or with last byte enables set'),
 'include TH bit in TLP copy and comparison': ('P04', 'a copy of a packet with TH=1 lost the bit and packets differing in it compared equal'),
 'MSI extended message data enable is bit 26': ('P11', 'MSI extended message data enable written and read at the wrong position'),
 'return 0 for unimplemented MSI and MSI-X': ('P11', 'reading an unimplemented MSI/MSI-X register returned None'),
 'field positions in link capabilities': ('P11', 'link capabilities fields read back at the wrong positions'),
 'byte enables and RW1C bits in slot status': ('P11', 'slot status DLLSC and link status 2 RW1C bits cleared by the wrong byte enable / bit'),
 'lane equalization control registers': ('P11', 'lane equalization registers of the secondary PCIe capability off by one / only 16 lanes'),
 'BIST is in byte 3': ('P10', 'BIST read at the wrong byte of register 3 / start bit written with wrong enable'),
 'round MSI vector allocation': ('P22', 'MSI block allocation after an MSI-X one was not aligned'),
 'discard ACK/NAK DLLP exactly 2048': ('P07', 'an ACK 2048 ahead purged the retry buffer'),
 'duplicate TLP window is 2048': ('P07', 'a duplicate exactly 2048 behind was NAKed'),
 'send flow control updates on the virtual channel': ('P06', 'UpdateFC for VC n was sent with VC 0'),
 '32 bit BARs do not decode addresses above 4 GB': ('P08', 'a 32-bit BAR matched addresses above 4 GB'),
 'match 64 bit BARs of 4 GB and larger': ('P08', 'a 64-bit BAR of 4 GB or more never matched'),
 'update capabilities pointer when': ('P12', 'deregistering the first capability left the pointer at it'),
 'overlap check and list termination': ('P12', 'capabilities could overlap and the list did not terminate'),
 'save and restore upper half of 64 bit BAR': ('P21', 'sizing clobbered/mixed the upper half of a 64-bit BAR'),
 'PciDevice bus, device and function number setters': ('P23', 'setting one part of a device ID raised TypeError'),
 'align bridge window base': ('P21', 'a bridge window covered resources of a preceding device'),
 'allocate enough vectors when switching': ('P22', 'switching between MSI and MSI-X left the vector list short'),
 'Tlp.__bytes__ must return bytes': ('P01', 'bytes(tlp) raised TypeError'),
 'discard completions that do not belong': ('P20', 'a completion for a free or out-of-range tag raised IndexError or was handed to the next request using the tag'),
 'lower address of completions for zero-length reads': ('P17', 'the completion of a zero-length read carried lower address 4*DW+... of a wrong byte'),
 'AER root error command bit order': ('P11', 'AER root error command bits reversed, first error pointer only 4 bits'),
 'register extended capabilities of device models': ('P12', 'the FPGA device models registered extended capabilities in the standard list, where no configuration access reaches them'),
 'request completed flag when copying Tlp_us': ('P24', 'copying a Tlp_us did not copy request_completed (comparison instead of assignment)'),
 'function number in second segment of H-tile': ('P25', 'the function number of the second H-tile segment was at 3*seg of a signal with 2 bits per segment'),
 'position of downstream component presence': ('P11', 'downstream component presence read back at bit 27 instead of 28'),
 'window limits of root complex bridge are inclusive': ('P21', 'after enumeration the windows of the root complex bridge were one byte too long: a request for the first address behind the window was routed downstream'),
 'device lookup in capability accesses': ('P19', 'capability_read and capability_write of the root complex called a method that does not exist'),
 'await enabling of bus mastering': ('P27', 'an enabled bridge that was not bus master stayed so when a function below it was enabled (coroutine never awaited)'),
 'do not clear device status bits': ('P27', 'setting payload size, read request size or extended tags cleared the pending error bits of device status'),
 'completer function and BAR aperture of the function': ('P29', 'with two functions a request was presented as one for function 0 and with the aperture of function 0\'s BAR'),
 'requests carry the number of the function that claims': ('P29', 'the function number of a received request was that of the requester'),
 'wake requests waiting for a tag': ('P29', 'with core-managed tags a request that had to wait for a tag was never sent'),
 'only the tags that can be assigned count': ('P29', 'with core-managed extended tags the 65th outstanding request was sent with tag None (exception)'),
 'receive credits consumed are called': ('P29', 'cfg_fc_sel=0b010 raised AttributeError in the UltraScale+ model'),
}
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    for k, (p, what) in PROPS.items():
        if k in s:
            out.append(dict(id='F%02d' % (len(out) + 1), status='fixed', property=p, commit=h,
                            text='fixed: property=%s %s %s' % (p, h, what)))
            break
    else:
        raise SystemExit('no entry for ' + s)
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out + KNOWN), f, indent=1)
print(len(out))
