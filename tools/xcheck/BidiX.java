// Development-time cross-check of the TLA+ UBA specification against java.text.Bidi (an
// independent implementation): reads emitted lines on stdin, prints disagreements.
import java.io.*; import java.text.Bidi; import java.util.*;
public class BidiX {
  static final int[] REP={0,'a',0x5d0,0x627,'1',0x661,'+','$',',',0x300,0xad,0x2029,9,' ','!',0x202a,0x202d,0x202b,0x202e,0x202c,0x2066,0x2067,0x2068,0x2069};
  public static void main(String[] a) throws Exception {
    BufferedReader r=new BufferedReader(new InputStreamReader(System.in)); String s; long n=0,bad=0;
    while((s=r.readLine())!=null){ if(!s.startsWith("\"<<"))continue;
      s=s.substring(1,s.length()-1); String[] t=s.substring(2).split(", <<",3);
      int dir=Integer.parseInt(t[0].trim()); int[] cls=ints(t[1].substring(0,t[1].indexOf(">>")));
      int[] lv=ints(t[2].substring(0,t[2].indexOf(">>")));
      StringBuilder sb=new StringBuilder(); for(int c:cls)sb.appendCodePoint(REP[c]);
      sb.append("\u2029a\u05d0");Bidi b=new Bidi(sb.toString(),dir==1000?Bidi.DIRECTION_DEFAULT_LEFT_TO_RIGHT:dir);
      n++; boolean ok=true; int first11=-1;
      for(int i=0;i<cls.length;i++){ int c=cls[i]; if(c==10||(c>=15&&c<=19)||reset(cls,i))continue;
        if(b.getLevelAt(i)!=lv[i])ok=false;}
      if(!ok){bad++; if(bad<20){StringBuilder g=new StringBuilder();for(int i=0;i<cls.length;i++)g.append(b.getLevelAt(i)).append(' ');
        System.out.println(dir+" "+Arrays.toString(cls)+" spec "+Arrays.toString(lv)+" java "+g);} }
    }
    System.out.println(n+" compared, "+bad+" differ");
  }
  static boolean reset(int[] c,int i){ if(c[i]==12)return true; if(!(c[i]==13||c[i]>=20))return false;
    for(int j=i+1;j<c.length;j++){ if(c[j]==11||c[j]==12)return true; if(c[j]==13||c[j]>=20||c[j]==10||(c[j]>=15&&c[j]<=19))continue; return false;} return true; }
  static int[] ints(String s){ if(s.trim().isEmpty())return new int[0]; String[] p=s.split(","); int[] r=new int[p.length]; for(int i=0;i<p.length;i++)r[i]=Integer.parseInt(p[i].trim()); return r;}
}
