// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),)>("(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),[(bool,Tri,);2],((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),[(bool,Tri,);2],((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),[Option<()>;4],)>("(((Tri,bool,),Tri,),[Option<()>;4],)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),)>("((),(),(),(),)"));
    v.push(Ty::of::<((),(),Never,)>("((),(),Never,)"));
    v.push(Ty::of::<((),(),Two,Two,)>("((),(),Two,Two,)"));
    v.push(Ty::of::<((),(bool,Tri,),(),)>("((),(bool,Tri,),(),)"));
    v.push(Ty::of::<((),)>("((),)"));
    v.push(Ty::of::<((),Five,bool,)>("((),Five,bool,)"));
    v.push(Ty::of::<((),H62,)>("((),H62,)"));
    v.push(Ty::of::<((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<((),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("((),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<((),Option<Tri>,(),)>("((),Option<Tri>,(),)"));
    v.push(Ty::of::<((),Tri,(),Two,)>("((),Tri,(),Two,)"));
    v.push(Ty::of::<((),Tri,)>("((),Tri,)"));
    v.push(Ty::of::<((),Tri,Tri,)>("((),Tri,Tri,)"));
    v.push(Ty::of::<((),Two,(),Tri,)>("((),Two,(),Tri,)"));
    v.push(Ty::of::<((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),bool,Tri,)>("((),bool,Tri,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),)>("((Option<bool>,[Tri;2],),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<[Never;0]>,)>("((Option<bool>,[Tri;2],),Option<[Never;0]>,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),[(bool,Tri,);2],)>("((Option<bool>,[Tri;2],),[(bool,Tri,);2],)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<[Never;0]>,)>("((Result<Never,Never>,bool,),Option<[Never;0]>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<[Never;1]>,(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),Option<[Never;1]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Tri,),(bool,Tri,),(Tri,),)>("((Tri,),(bool,Tri,),(Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<Tri>,(Tri,),)>("((Tri,),Option<Tri>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<bool>,)>("((Tri,),Option<bool>,)"));
    v.push(Ty::of::<((bool,Tri,),(),)>("((bool,Tri,),(),)"));
    v.push(Ty::of::<((bool,Tri,),Result<Never,Tri>,)>("((bool,Tri,),Result<Never,Tri>,)"));
    v.push(Ty::of::<((bool,Tri,),Result<bool,()>,(bool,Tri,),)>("((bool,Tri,),Result<bool,()>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),[Tri;0],(bool,Tri,),)>("((bool,Tri,),[Tri;0],(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),[Tri;3],)>("((bool,Tri,),[Tri;3],)"));
    v.push(Ty::of::<(D17,(),)>("(D17,(),)"));
    v.push(Ty::of::<(D17,Wide,)>("(D17,Wide,)"));
    v.push(Ty::of::<(Five,(),Five,)>("(Five,(),Five,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,Five,bool,)>("(Five,Five,bool,)"));
    v.push(Ty::of::<(Five,Tri,)>("(Five,Tri,)"));
    v.push(Ty::of::<(Five,Tri,Never,)>("(Five,Tri,Never,)"));
    v.push(Ty::of::<(Four,Never,)>("(Four,Never,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(H62,One,)>("(H62,One,)"));
    v.push(Ty::of::<(Never,(),(),)>("(Never,(),(),)"));
    v.push(Ty::of::<(Never,(),)>("(Never,(),)"));
    v.push(Ty::of::<(Never,Five,Never,)>("(Never,Five,Never,)"));
    v.push(Ty::of::<(Never,Option<()>,)>("(Never,Option<()>,)"));
    v.push(Ty::of::<(Never,Option<()>,Never,)>("(Never,Option<()>,Never,)"));
    v.push(Ty::of::<(Never,Tri,Five,)>("(Never,Tri,Five,)"));
    v.push(Ty::of::<(Never,[Tri;3],)>("(Never,[Tri;3],)"));
    v.push(Ty::of::<(Never,bool,Five,)>("(Never,bool,Five,)"));
    v.push(Ty::of::<(One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(One,H63,)>("(One,H63,)"));
    v.push(Ty::of::<(Option<()>,(Tri,),Option<()>,)>("(Option<()>,(Tri,),Option<()>,)"));
    v.push(Ty::of::<(Option<()>,(bool,Tri,),Option<()>,)>("(Option<()>,(bool,Tri,),Option<()>,)"));
    v.push(Ty::of::<(Option<()>,)>("(Option<()>,)"));
    v.push(Ty::of::<(Option<()>,Never,)>("(Option<()>,Never,)"));
    v.push(Ty::of::<(Option<()>,Option<Never>,Option<()>,)>("(Option<()>,Option<Never>,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[Tri;3],Option<()>,)>("(Option<()>,[Tri;3],Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[bool;2],)>("(Option<()>,[bool;2],)"));
    v.push(Ty::of::<(Option<Never>,Option<Tri>,Option<Never>,)>("(Option<Never>,Option<Tri>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Result<Tri,bool>,Option<Never>,)>("(Option<Never>,Result<Tri,bool>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Tri,)>("(Option<Never>,Tri,)"));
    v.push(Ty::of::<(Option<Never>,[bool;2],Option<Never>,)>("(Option<Never>,[bool;2],Option<Never>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,[(bool,Tri,);2],Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,[(bool,Tri,);2],Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<()>,)>("(Option<Tri>,Option<()>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<()>,Option<Tri>,)>("(Option<Tri>,Option<()>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Result<bool,()>,Option<Tri>,)>("(Option<Tri>,Result<bool,()>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,[Tri;0],Option<Tri>,)>("(Option<Tri>,[Tri;0],Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,bool,)>("(Option<Tri>,bool,)"));
    v.push(Ty::of::<(Option<[Never;0]>,((Tri,bool,),Tri,),)>("(Option<[Never;0]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(Option<[Never;0]>,(Option<bool>,[Tri;2],),Option<[Never;0]>,)>("(Option<[Never;0]>,(Option<bool>,[Tri;2],),Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,[Option<()>;4],Option<[Never;0]>,)>("(Option<[Never;0]>,[Option<()>;4],Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,[(bool,Tri,);2],)>("(Option<[Never;1]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<(Option<bool>,(bool,Tri,),Option<bool>,)>("(Option<bool>,(bool,Tri,),Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Never,)>("(Option<bool>,Never,)"));
    v.push(Ty::of::<(Option<bool>,Never,Option<bool>,)>("(Option<bool>,Never,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Tri,Option<bool>,)>("(Option<bool>,Tri,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,[bool;2],)>("(Option<bool>,[bool;2],)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,(Tri,),Result<Never,Tri>,)>("(Result<Never,Tri>,(Tri,),Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<Never>,)>("(Result<Never,Tri>,Option<Never>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Option<Never>,Result<Never,Tri>,)>("(Result<Never,Tri>,Option<Never>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<Never,Tri>,)>("(Result<Never,Tri>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),)>("(Result<Option<Never>,Option<bool>>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,)>("(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,(Tri,),Result<Tri,bool>,)>("(Result<Tri,bool>,(Tri,),Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<()>,Result<Tri,bool>,)>("(Result<Tri,bool>,Option<()>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<bool>,)>("(Result<Tri,bool>,Option<bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<bool,()>,)>("(Result<Tri,bool>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,bool,Result<Tri,bool>,)>("(Result<Tri,bool>,bool,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<()>,)>("(Result<bool,()>,Option<()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Tri,Result<bool,()>,)>("(Result<bool,()>,Tri,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,bool,)>("(Result<bool,()>,bool,)"));
    v.push(Ty::of::<(Tri,(),Tri,(),)>("(Tri,(),Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,)>("(Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Tri,Five,)>("(Tri,Five,)"));
    v.push(Ty::of::<(Tri,Five,Five,)>("(Tri,Five,Five,)"));
    v.push(Ty::of::<(Tri,Never,bool,)>("(Tri,Never,bool,)"));
    v.push(Ty::of::<(Tri,Option<bool>,)>("(Tri,Option<bool>,)"));
    v.push(Ty::of::<(Tri,Result<Never,Tri>,Tri,)>("(Tri,Result<Never,Tri>,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,(),)>("(Tri,Tri,(),)"));
    v.push(Ty::of::<(Tri,Tri,Tri,Two,)>("(Tri,Tri,Tri,Two,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Tri,)>("(Tri,Two,Tri,Tri,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Tri,bool,(),)>("(Tri,bool,(),)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),)>("(Two,(),)"));
    v.push(Ty::of::<(Two,(),Tri,(),)>("(Two,(),Tri,(),)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<(Two,Tri,(),Two,)>("(Two,Tri,(),Two,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Two,(),Tri,)>("(Two,Two,(),Tri,)"));
    v.push(Ty::of::<(Two,Two,)>("(Two,Two,)"));
    v.push(Ty::of::<(Wide,)>("(Wide,)"));
    v.push(Ty::of::<(Wide,Never,)>("(Wide,Never,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<[Never;0]>,)>("([(bool,Tri,);2],Option<[Never;0]>,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<[Never;1]>,[(bool,Tri,);2],)>("([(bool,Tri,);2],Option<[Never;1]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],)>("([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],[(bool,Tri,);2],)>("([(bool,Tri,);2],[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Option<()>;4],(Result<Never,Never>,bool,),)>("([Option<()>;4],(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<([Option<()>;4],Option<[Never;1]>,[Option<()>;4],)>("([Option<()>;4],Option<[Never;1]>,[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],[Option<()>;4],)>("([Option<()>;4],[Option<()>;4],)"));
    v.push(Ty::of::<([Tri;0],(bool,Tri,),)>("([Tri;0],(bool,Tri,),)"));
    v.push(Ty::of::<([Tri;0],Option<Tri>,[Tri;0],)>("([Tri;0],Option<Tri>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],[Tri;0],)>("([Tri;0],[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],[bool;2],[Tri;0],)>("([Tri;0],[bool;2],[Tri;0],)"));
    v.push(Ty::of::<([Tri;3],Option<Tri>,)>("([Tri;3],Option<Tri>,)"));
    v.push(Ty::of::<([Tri;3],Option<bool>,[Tri;3],)>("([Tri;3],Option<bool>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Result<bool,()>,[Tri;3],)>("([Tri;3],Result<bool,()>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],bool,[Tri;3],)>("([Tri;3],bool,[Tri;3],)"));
    v.push(Ty::of::<([bool;2],Never,)>("([bool;2],Never,)"));
    v.push(Ty::of::<([bool;2],Result<Never,Tri>,)>("([bool;2],Result<Never,Tri>,)"));
    v.push(Ty::of::<([bool;2],[bool;2],)>("([bool;2],[bool;2],)"));
    v.push(Ty::of::<(bool,(),(),)>("(bool,(),(),)"));
    v.push(Ty::of::<(bool,Five,Never,)>("(bool,Five,Never,)"));
    v.push(Ty::of::<(bool,One,)>("(bool,One,)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),)>("(bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(bool,Option<()>,bool,)>("(bool,Option<()>,bool,)"));
    v.push(Ty::of::<(bool,Result<Never,Tri>,bool,)>("(bool,Result<Never,Tri>,bool,)"));
    v.push(Ty::of::<(bool,Tri,Five,)>("(bool,Tri,Five,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,[Tri;0],)>("(bool,[Tri;0],)"));
    v.push(Ty::of::<(bool,bool,Five,)>("(bool,bool,Five,)"));
    v.push(Ty::of::<(bool,bool,bool,Tri,bool,bool,)>("(bool,bool,bool,Tri,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Never,bool,bool,bool,)>("(bool,bool,bool,bool,Never,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<Never>("Never"));
    v.push(Ty::of::<Option<Never>>("Option<Never>"));
    v.push(Ty::of::<Option<Option<Never>>>("Option<Option<Never>>"));
    v.push(Ty::of::<Option<Option<Option<Never>>>>("Option<Option<Option<Never>>>"));
    v.push(Ty::of::<Option<Option<Wide>>>("Option<Option<Wide>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<Option<[Never;1]>>>>>("Option<Result<((Tri,bool,),Tri,),Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<(Result<Never,Never>,bool,),Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<[Option<()>;4]>>>>("Option<Result<(Result<Never,Never>,bool,),Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<(Tri,bool,),[bool;3]>>>("Option<Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Option<Result<Never,Tri>>>("Option<Result<Never,Tri>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<[Option<()>;4]>>>>("Option<Result<Option<Result<bool,Tri>>,Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<((Tri,bool,),Tri,)>>>>("Option<Result<Option<[Never;0]>,Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<((Tri,bool,),Tri,)>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<[Never;1]>>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Tri,bool>>>("Option<Result<Tri,bool>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<((Tri,bool,),Tri,)>>>>("Option<Result<[Option<()>;4],Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<Option<Result<bool,Tri>>>>>>("Option<Result<[Option<()>;4],Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<[Tri;0]>>("Option<[Tri;0]>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),Option<Result<bool,Tri>>>>("Result<((Tri,bool,),Tri,),Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<(),Four>>("Result<(),Four>"));
    v.push(Ty::of::<Result<(),Option<bool>>>("Result<(),Option<bool>>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),Option<Result<bool,Tri>>>>("Result<(Option<bool>,[Tri;2],),Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),Option<[Never;1]>>>("Result<(Option<bool>,[Tri;2],),Option<[Never;1]>>"));
    v.push(Ty::of::<Result<(Tri,),Never>>("Result<(Tri,),Never>"));
    v.push(Ty::of::<Result<(Tri,),[bool;2]>>("Result<(Tri,),[bool;2]>"));
    v.push(Ty::of::<Result<(bool,Tri,),(bool,Tri,)>>("Result<(bool,Tri,),(bool,Tri,)>"));
    v.push(Ty::of::<Result<(bool,Tri,),Option<()>>>("Result<(bool,Tri,),Option<()>>"));
    v.push(Ty::of::<Result<(bool,Tri,),Result<Tri,bool>>>("Result<(bool,Tri,),Result<Tri,bool>>"));
    v.push(Ty::of::<Result<(bool,Tri,),bool>>("Result<(bool,Tri,),bool>"));
    v.push(Ty::of::<Result<D17,()>>("Result<D17,()>"));
    v.push(Ty::of::<Result<D17,Tri>>("Result<D17,Tri>"));
    v.push(Ty::of::<Result<Five,H62>>("Result<Five,H62>"));
    v.push(Ty::of::<Result<Four,()>>("Result<Four,()>"));
    v.push(Ty::of::<Result<Four,Tri>>("Result<Four,Tri>"));
    v.push(Ty::of::<Result<H62,H62>>("Result<H62,H62>"));
    v.push(Ty::of::<Result<H63,()>>("Result<H63,()>"));
    v.push(Ty::of::<Result<H63,Two>>("Result<H63,Two>"));
    v.push(Ty::of::<Result<Never,H63>>("Result<Never,H63>"));
    v.push(Ty::of::<Result<Never,Two>>("Result<Never,Two>"));
    v.push(Ty::of::<Result<One,Five>>("Result<One,Five>"));
    v.push(Ty::of::<Result<One,Wide>>("Result<One,Wide>"));
    v.push(Ty::of::<Result<Option<()>,Result<Tri,bool>>>("Result<Option<()>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Option<()>,Tri>>("Result<Option<()>,Tri>"));
    v.push(Ty::of::<Result<Option<Never>,Option<Never>>>("Result<Option<Never>,Option<Never>>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,[Option<()>;4]>>("Result<Option<Result<bool,Tri>>,[Option<()>;4]>"));
    v.push(Ty::of::<Result<Option<Tri>,()>>("Result<Option<Tri>,()>"));
    v.push(Ty::of::<Result<Option<Tri>,[Tri;3]>>("Result<Option<Tri>,[Tri;3]>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,[(bool,Tri,);2]>>("Result<Option<[Never;0]>,[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,Result<Option<Never>,Option<bool>>>>("Result<Option<[Never;1]>,Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,[Option<()>;4]>>("Result<Option<[Never;1]>,[Option<()>;4]>"));
    v.push(Ty::of::<Result<Option<bool>,[Tri;0]>>("Result<Option<bool>,[Tri;0]>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>>>("Result<Result<(Tri,bool,),[bool;3]>,Option<[Never;0]>>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>>>("Result<Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2]>>("Result<Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Option<Never>>>("Result<Result<Never,Tri>,Option<Never>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>>>("Result<Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,Option<[Never;0]>>>("Result<Result<Option<Never>,Option<bool>>,Option<[Never;0]>>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>>>("Result<Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Option<bool>>>("Result<Result<Tri,bool>,Option<bool>>"));
    v.push(Ty::of::<Result<Result<bool,()>,Option<()>>>("Result<Result<bool,()>,Option<()>>"));
    v.push(Ty::of::<Result<Result<bool,()>,Result<Tri,bool>>>("Result<Result<bool,()>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Result<bool,()>,bool>>("Result<Result<bool,()>,bool>"));
    v.push(Ty::of::<Result<Tri,H62>>("Result<Tri,H62>"));
    v.push(Ty::of::<Result<Tri,Tri>>("Result<Tri,Tri>"));
    v.push(Ty::of::<Result<Two,D17>>("Result<Two,D17>"));
    v.push(Ty::of::<Result<Two,Two>>("Result<Two,Two>"));
    v.push(Ty::of::<Result<Wide,H63>>("Result<Wide,H63>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],Option<Result<bool,Tri>>>>("Result<[(bool,Tri,);2],Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<[Option<()>;4],Option<[Never;1]>>>("Result<[Option<()>;4],Option<[Never;1]>>"));
    v.push(Ty::of::<Result<[Tri;0],(bool,Tri,)>>("Result<[Tri;0],(bool,Tri,)>"));
    v.push(Ty::of::<Result<[Tri;0],Result<Never,Tri>>>("Result<[Tri;0],Result<Never,Tri>>"));
    v.push(Ty::of::<Result<[Tri;0],Tri>>("Result<[Tri;0],Tri>"));
    v.push(Ty::of::<Result<[Tri;3],Option<Never>>>("Result<[Tri;3],Option<Never>>"));
    v.push(Ty::of::<Result<[bool;2],()>>("Result<[bool;2],()>"));
    v.push(Ty::of::<Result<[bool;2],Result<Never,Tri>>>("Result<[bool;2],Result<Never,Tri>>"));
    v.push(Ty::of::<Result<[bool;2],[Tri;3]>>("Result<[bool;2],[Tri;3]>"));
    v.push(Ty::of::<Result<bool,H63>>("Result<bool,H63>"));
    v.push(Ty::of::<Result<bool,Two>>("Result<bool,Two>"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),);2]>("[(((Tri,bool,),Tri,),(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),[(bool,Tri,);2],);2]>("[((Option<bool>,[Tri;2],),[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),);2]>("[((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),[Option<()>;4],);2]>("[((Result<Never,Never>,bool,),[Option<()>;4],);2]"));
    v.push(Ty::of::<[((Tri,bool,),Tri,);3]>("[((Tri,bool,),Tri,);3]"));
    v.push(Ty::of::<[();10]>("[();10]"));
    v.push(Ty::of::<[();18]>("[();18]"));
    v.push(Ty::of::<[();25]>("[();25]"));
    v.push(Ty::of::<[();32]>("[();32]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),);2]>("[(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,Option<[Never;1]>,);2]>("[(Option<[Never;0]>,Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,);2]>("[(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,);2]>("[(Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,);2]>("[(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,);2]>("[(Result<Option<Never>,Option<bool>>,Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[(Tri,);2]>("[(Tri,);2]"));
    v.push(Ty::of::<[([Option<()>;4],Option<Result<bool,Tri>>,);2]>("[([Option<()>;4],Option<Result<bool,Tri>>,);2]"));
    v.push(Ty::of::<[([Option<()>;4],Option<[Never;1]>,);2]>("[([Option<()>;4],Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[D17;0]>("[D17;0]"));
    v.push(Ty::of::<[D17;2]>("[D17;2]"));
    v.push(Ty::of::<[Five;0]>("[Five;0]"));
    v.push(Ty::of::<[Five;17]>("[Five;17]"));
    v.push(Ty::of::<[Five;24]>("[Five;24]"));
    v.push(Ty::of::<[Five;6]>("[Five;6]"));
    v.push(Ty::of::<[Four;13]>("[Four;13]"));
    v.push(Ty::of::<[Four;20]>("[Four;20]"));
    v.push(Ty::of::<[Four;28]>("[Four;28]"));
    v.push(Ty::of::<[Four;6]>("[Four;6]"));
    v.push(Ty::of::<[Never;0]>("[Never;0]"));
    v.push(Ty::of::<[Never;17]>("[Never;17]"));
    v.push(Ty::of::<[Never;24]>("[Never;24]"));
    v.push(Ty::of::<[Never;31]>("[Never;31]"));
    v.push(Ty::of::<[Never;9]>("[Never;9]"));
    v.push(Ty::of::<[One;16]>("[One;16]"));
    v.push(Ty::of::<[One;23]>("[One;23]"));
    v.push(Ty::of::<[One;30]>("[One;30]"));
    v.push(Ty::of::<[One;8]>("[One;8]"));
    v.push(Ty::of::<[Option<Never>;2]>("[Option<Never>;2]"));
    v.push(Ty::of::<[Option<[Never;1]>;2]>("[Option<[Never;1]>;2]"));
    v.push(Ty::of::<[Result<Option<Never>,Option<bool>>;2]>("[Result<Option<Never>,Option<bool>>;2]"));
    v.push(Ty::of::<[Result<bool,()>;2]>("[Result<bool,()>;2]"));
    v.push(Ty::of::<[Tri;11]>("[Tri;11]"));
    v.push(Ty::of::<[Tri;19]>("[Tri;19]"));
    v.push(Ty::of::<[Tri;26]>("[Tri;26]"));
    v.push(Ty::of::<[Tri;3]>("[Tri;3]"));
    v.push(Ty::of::<[Two;10]>("[Two;10]"));
    v.push(Ty::of::<[Two;18]>("[Two;18]"));
    v.push(Ty::of::<[Two;25]>("[Two;25]"));
    v.push(Ty::of::<[Two;32]>("[Two;32]"));
    v.push(Ty::of::<[Wide;0]>("[Wide;0]"));
    v.push(Ty::of::<[Wide;17]>("[Wide;17]"));
    v.push(Ty::of::<[Wide;24]>("[Wide;24]"));
    v.push(Ty::of::<[Wide;31]>("[Wide;31]"));
    v.push(Ty::of::<[Wide;9]>("[Wide;9]"));
    v.push(Ty::of::<[[Tri;3];1]>("[[Tri;3];1]"));
    v.push(Ty::of::<[bool;10]>("[bool;10]"));
    v.push(Ty::of::<[bool;18]>("[bool;18]"));
    v.push(Ty::of::<[bool;25]>("[bool;25]"));
    v.push(Ty::of::<[bool;32]>("[bool;32]"));
    v.push(Ty::of::<bool>("bool"));
}
