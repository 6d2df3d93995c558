# Development-time cross-check: property runs as Perl's Unicode 15 data has them.
use Unicode::UCD qw(prop_invmap prop_value_aliases);
binmode STDOUT, ":utf8";
for my $p (qw(age bc Bidi_C Bidi_M blk Lower Upper Cased CI CWL CWU CWT CWCF CWCM gc Alpha WSpace IDS IDC XIDS XIDC Pat_Syn Pat_WS ccc dt GCB SB WB Emoji EPres EMod EBase EComp)) {
  my ($list,$map,$format,$def)=prop_invmap($p);
  unless ($list) { print STDERR "no $p\n"; next; }
  for my $i (0..$#$list) {
    my $lo=$list->[$i]; my $hi=$i<$#$list ? $list->[$i+1]-1 : 0x10FFFF;
    next if $lo > 0x10FFFF; $hi=0x10FFFF if $hi>0x10FFFF;
    my $v=$map->[$i];
    my ($short,$full)=prop_value_aliases($p,$v);
    $short=$v unless defined $short;
    print join("\t",$p,$lo,$hi,$short,defined $full?$full:""),"\n";
  }
}
