// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<[Never;0]>,)>("(((Tri,bool,),Tri,),Option<[Never;0]>,)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,)>("(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),)>("((),(),(),)"));
    v.push(Ty::of::<((),(),Two,(),)>("((),(),Two,(),)"));
    v.push(Ty::of::<((),Five,)>("((),Five,)"));
    v.push(Ty::of::<((),Five,Never,)>("((),Five,Never,)"));
    v.push(Ty::of::<((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("((),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<((),Option<()>,(),)>("((),Option<()>,(),)"));
    v.push(Ty::of::<((),Option<Tri>,)>("((),Option<Tri>,)"));
    v.push(Ty::of::<((),Tri,(),(),)>("((),Tri,(),(),)"));
    v.push(Ty::of::<((),Tri,Five,)>("((),Tri,Five,)"));
    v.push(Ty::of::<((),Tri,Two,Two,)>("((),Tri,Two,Two,)"));
    v.push(Ty::of::<((),Two,Two,Tri,)>("((),Two,Two,Tri,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<((),bool,)>("((),bool,)"));
    v.push(Ty::of::<((),bool,Five,)>("((),bool,Five,)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,(),)>("((),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,)>("((Option<bool>,[Tri;2],),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),((Tri,bool,),Tri,),)>("((Result<Never,Never>,bool,),((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),)>("((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Tri,),Option<()>,(Tri,),)>("((Tri,),Option<()>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<Never>,)>("((Tri,),Option<Never>,)"));
    v.push(Ty::of::<((Tri,),Result<Tri,bool>,)>("((Tri,),Result<Tri,bool>,)"));
    v.push(Ty::of::<((Tri,),Result<bool,()>,(Tri,),)>("((Tri,),Result<bool,()>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),bool,(Tri,),)>("((Tri,),bool,(Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),)>("((bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<bool>,(bool,Tri,),)>("((bool,Tri,),Option<bool>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Result<Never,Tri>,(bool,Tri,),)>("((bool,Tri,),Result<Never,Tri>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Tri,)>("((bool,Tri,),Tri,)"));
    v.push(Ty::of::<(D17,Tri,)>("(D17,Tri,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,Five,Never,)>("(Five,Five,Never,)"));
    v.push(Ty::of::<(Five,Never,)>("(Five,Never,)"));
    v.push(Ty::of::<(Five,Tri,(),)>("(Five,Tri,(),)"));
    v.push(Ty::of::<(Five,bool,Tri,)>("(Five,bool,Tri,)"));
    v.push(Ty::of::<(Four,Five,)>("(Four,Five,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(H62,(),)>("(H62,(),)"));
    v.push(Ty::of::<(H63,Never,)>("(H63,Never,)"));
    v.push(Ty::of::<(Never,)>("(Never,)"));
    v.push(Ty::of::<(Never,Five,(),)>("(Never,Five,(),)"));
    v.push(Ty::of::<(Never,Never,)>("(Never,Never,)"));
    v.push(Ty::of::<(Never,Never,Tri,)>("(Never,Never,Tri,)"));
    v.push(Ty::of::<(Never,Result<Tri,bool>,Never,)>("(Never,Result<Tri,bool>,Never,)"));
    v.push(Ty::of::<(Never,Result<bool,()>,)>("(Never,Result<bool,()>,)"));
    v.push(Ty::of::<(Never,Wide,)>("(Never,Wide,)"));
    v.push(Ty::of::<(Never,[bool;2],Never,)>("(Never,[bool;2],Never,)"));
    v.push(Ty::of::<(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(One,Five,(),One,Five,)>("(One,Five,(),One,Five,)"));
    v.push(Ty::of::<(One,Four,)>("(One,Four,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(One,bool,)>("(One,bool,)"));
    v.push(Ty::of::<(Option<()>,Never,Option<()>,)>("(Option<()>,Never,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,Tri,Option<()>,)>("(Option<()>,Tri,Option<()>,)"));
    v.push(Ty::of::<(Option<()>,[Tri;0],)>("(Option<()>,[Tri;0],)"));
    v.push(Ty::of::<(Option<Never>,(bool,Tri,),)>("(Option<Never>,(bool,Tri,),)"));
    v.push(Ty::of::<(Option<Never>,Option<()>,Option<Never>,)>("(Option<Never>,Option<()>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Option<Tri>,)>("(Option<Never>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Never>,[Tri;0],Option<Never>,)>("(Option<Never>,[Tri;0],Option<Never>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),)>("(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,)>("(Option<Result<bool,Tri>>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,[Option<()>;4],Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,[Option<()>;4],Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Tri>,(),)>("(Option<Tri>,(),)"));
    v.push(Ty::of::<(Option<Tri>,(Tri,),)>("(Option<Tri>,(Tri,),)"));
    v.push(Ty::of::<(Option<Tri>,Result<Never,Tri>,Option<Tri>,)>("(Option<Tri>,Result<Never,Tri>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,Result<bool,()>,)>("(Option<Tri>,Result<bool,()>,)"));
    v.push(Ty::of::<(Option<Tri>,[Tri;3],)>("(Option<Tri>,[Tri;3],)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<[Never;1]>,Option<[Never;0]>,)>("(Option<[Never;0]>,Option<[Never;1]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<Result<bool,Tri>>,Option<[Never;1]>,)>("(Option<[Never;1]>,Option<Result<bool,Tri>>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,)>("(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,[Option<()>;4],)>("(Option<[Never;1]>,[Option<()>;4],)"));
    v.push(Ty::of::<(Option<bool>,(),Option<bool>,)>("(Option<bool>,(),Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Result<Tri,bool>,)>("(Option<bool>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Option<bool>,[Tri;0],)>("(Option<bool>,[Tri;0],)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),)>("(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,)>("(Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,[(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Never,)>("(Result<Never,Tri>,Never,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Never,Result<Never,Tri>,)>("(Result<Never,Tri>,Never,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,[bool;2],)>("(Result<Never,Tri>,[bool;2],)"));
    v.push(Ty::of::<(Result<Never,Tri>,[bool;2],Result<Never,Tri>,)>("(Result<Never,Tri>,[bool;2],Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),)>("(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,)>("(Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,(bool,Tri,),)>("(Result<Tri,bool>,(bool,Tri,),)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<Never>,)>("(Result<Tri,bool>,Option<Never>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<Never,Tri>,)>("(Result<Tri,bool>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[Tri;3],Result<Tri,bool>,)>("(Result<Tri,bool>,[Tri;3],Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<bool,()>,(),)>("(Result<bool,()>,(),)"));
    v.push(Ty::of::<(Result<bool,()>,Option<Tri>,Result<bool,()>,)>("(Result<bool,()>,Option<Tri>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<Tri,bool>,Result<bool,()>,)>("(Result<bool,()>,Result<Tri,bool>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,[Tri;3],)>("(Result<bool,()>,[Tri;3],)"));
    v.push(Ty::of::<(Tri,(),(),Tri,)>("(Tri,(),(),Tri,)"));
    v.push(Ty::of::<(Tri,(),)>("(Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,(Tri,),)>("(Tri,(Tri,),)"));
    v.push(Ty::of::<(Tri,(Tri,),Tri,)>("(Tri,(Tri,),Tri,)"));
    v.push(Ty::of::<(Tri,(bool,Tri,),Tri,)>("(Tri,(bool,Tri,),Tri,)"));
    v.push(Ty::of::<(Tri,)>("(Tri,)"));
    v.push(Ty::of::<(Tri,Never,Never,)>("(Tri,Never,Never,)"));
    v.push(Ty::of::<(Tri,Option<Never>,)>("(Tri,Option<Never>,)"));
    v.push(Ty::of::<(Tri,Result<Tri,bool>,)>("(Tri,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Tri,Tri,Tri,(),)>("(Tri,Tri,Tri,(),)"));
    v.push(Ty::of::<(Tri,Two,(),Two,)>("(Tri,Two,(),Two,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Tri,[Tri;3],Tri,)>("(Tri,[Tri;3],Tri,)"));
    v.push(Ty::of::<(Tri,[bool;2],)>("(Tri,[bool;2],)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),(),Tri,)>("(Two,(),(),Tri,)"));
    v.push(Ty::of::<(Two,One,)>("(Two,One,)"));
    v.push(Ty::of::<(Two,Tri,(),(),)>("(Two,Tri,(),(),)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Two,)>("(Two,Tri,Two,Two,)"));
    v.push(Ty::of::<(Two,Two,Two,Tri,)>("(Two,Two,Two,Tri,)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,(),)>("(Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)>("(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,)"));
    v.push(Ty::of::<(Wide,Four,)>("(Wide,Four,)"));
    v.push(Ty::of::<([(bool,Tri,);2],(Option<bool>,[Tri;2],),[(bool,Tri,);2],)>("([(bool,Tri,);2],(Option<bool>,[Tri;2],),[(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],(Result<Never,Never>,bool,),)>("([(bool,Tri,);2],(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,)>("([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],)>("([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Option<()>;4],Option<Result<bool,Tri>>,)>("([Option<()>;4],Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<([Option<()>;4],Option<[Never;0]>,)>("([Option<()>;4],Option<[Never;0]>,)"));
    v.push(Ty::of::<([Option<()>;4],[(bool,Tri,);2],)>("([Option<()>;4],[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Tri;0],Option<()>,[Tri;0],)>("([Tri;0],Option<()>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Option<bool>,)>("([Tri;0],Option<bool>,)"));
    v.push(Ty::of::<([Tri;0],[Tri;0],[Tri;0],)>("([Tri;0],[Tri;0],[Tri;0],)"));
    v.push(Ty::of::<([Tri;3],Option<()>,)>("([Tri;3],Option<()>,)"));
    v.push(Ty::of::<([Tri;3],Option<Never>,[Tri;3],)>("([Tri;3],Option<Never>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Result<Never,Tri>,[Tri;3],)>("([Tri;3],Result<Never,Tri>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],[Tri;3],[Tri;3],)>("([Tri;3],[Tri;3],[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],bool,)>("([Tri;3],bool,)"));
    v.push(Ty::of::<([bool;2],Option<Tri>,[bool;2],)>("([bool;2],Option<Tri>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],[Tri;0],)>("([bool;2],[Tri;0],)"));
    v.push(Ty::of::<([bool;2],[bool;2],[bool;2],)>("([bool;2],[bool;2],[bool;2],)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),)>("(bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)>("(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),)"));
    v.push(Ty::of::<(bool,(Tri,),bool,)>("(bool,(Tri,),bool,)"));
    v.push(Ty::of::<(bool,Five,(),)>("(bool,Five,(),)"));
    v.push(Ty::of::<(bool,H62,)>("(bool,H62,)"));
    v.push(Ty::of::<(bool,Never,Tri,)>("(bool,Never,Tri,)"));
    v.push(Ty::of::<(bool,Result<bool,()>,)>("(bool,Result<bool,()>,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Two,)>("(bool,Two,)"));
    v.push(Ty::of::<(bool,[bool;2],bool,)>("(bool,[bool;2],bool,)"));
    v.push(Ty::of::<(bool,bool,bool,Tri,bool,bool,bool,)>("(bool,bool,bool,Tri,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<H62>("H62"));
    v.push(Ty::of::<Option<(Tri,)>>("Option<(Tri,)>"));
    v.push(Ty::of::<Option<H62>>("Option<H62>"));
    v.push(Ty::of::<Option<Option<H62>>>("Option<Option<H62>>"));
    v.push(Ty::of::<Option<Option<Option<H62>>>>("Option<Option<Option<H62>>>"));
    v.push(Ty::of::<Option<Option<Tri>>>("Option<Option<Tri>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<((Tri,bool,),Tri,)>>>>("Option<Result<((Tri,bool,),Tri,),Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<((Tri,bool,),Tri,),Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<(Result<Never,Never>,bool,)>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<Option<[Never;1]>>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<Option<[Never;0]>>>>>("Option<Result<(Result<Never,Never>,bool,),Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<(Result<Never,Never>,bool,),Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<(Result<Never,Never>,bool,)>>>>("Option<Result<Option<Result<bool,Tri>>,Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<Option<Result<bool,Tri>>,Option<Option<[Never;0]>>>>>("Option<Result<Option<Result<bool,Tri>>,Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<Option<[Never;1]>>>>>("Option<Result<Option<[Never;1]>,Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<Option<[Never;1]>,Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<[(bool,Tri,);2]>>>>("Option<Result<Option<[Never;1]>,Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<[Never;1]>>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<[(bool,Tri,);2],Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<(Result<Never,Never>,bool,)>>>>("Option<Result<[(bool,Tri,);2],Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<(Result<Never,Never>,bool,)>>>>("Option<Result<[Option<()>;4],Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Wide>>("Option<Wide>"));
    v.push(Ty::of::<Result<(),(bool,Tri,)>>("Result<(),(bool,Tri,)>"));
    v.push(Ty::of::<Result<(),D17>>("Result<(),D17>"));
    v.push(Ty::of::<Result<(),Option<Never>>>("Result<(),Option<Never>>"));
    v.push(Ty::of::<Result<(),Result<bool,()>>>("Result<(),Result<bool,()>>"));
    v.push(Ty::of::<Result<(),[bool;2]>>("Result<(),[bool;2]>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),Option<Result<bool,Tri>>>>("Result<(Result<Never,Never>,bool,),Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>>>("Result<(Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<(Tri,),[Tri;0]>>("Result<(Tri,),[Tri;0]>"));
    v.push(Ty::of::<Result<(bool,Tri,),()>>("Result<(bool,Tri,),()>"));
    v.push(Ty::of::<Result<(bool,Tri,),(Tri,)>>("Result<(bool,Tri,),(Tri,)>"));
    v.push(Ty::of::<Result<(bool,Tri,),[Tri;3]>>("Result<(bool,Tri,),[Tri;3]>"));
    v.push(Ty::of::<Result<D17,Never>>("Result<D17,Never>"));
    v.push(Ty::of::<Result<Five,Five>>("Result<Five,Five>"));
    v.push(Ty::of::<Result<Five,Wide>>("Result<Five,Wide>"));
    v.push(Ty::of::<Result<Four,Never>>("Result<Four,Never>"));
    v.push(Ty::of::<Result<H62,Five>>("Result<H62,Five>"));
    v.push(Ty::of::<Result<H62,Wide>>("Result<H62,Wide>"));
    v.push(Ty::of::<Result<H63,One>>("Result<H63,One>"));
    v.push(Ty::of::<Result<Never,Four>>("Result<Never,Four>"));
    v.push(Ty::of::<Result<Never,Option<bool>>>("Result<Never,Option<bool>>"));
    v.push(Ty::of::<Result<One,()>>("Result<One,()>"));
    v.push(Ty::of::<Result<One,Tri>>("Result<One,Tri>"));
    v.push(Ty::of::<Result<Option<()>,(Tri,)>>("Result<Option<()>,(Tri,)>"));
    v.push(Ty::of::<Result<Option<()>,Option<Tri>>>("Result<Option<()>,Option<Tri>>"));
    v.push(Ty::of::<Result<Option<Never>,Never>>("Result<Option<Never>,Never>"));
    v.push(Ty::of::<Result<Option<Never>,[bool;2]>>("Result<Option<Never>,[bool;2]>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,((Tri,bool,),Tri,)>>("Result<Option<Result<bool,Tri>>,((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,Option<[Never;0]>>>("Result<Option<Result<bool,Tri>>,Option<[Never;0]>>"));
    v.push(Ty::of::<Result<Option<Tri>,(bool,Tri,)>>("Result<Option<Tri>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Option<Tri>,Tri>>("Result<Option<Tri>,Tri>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,Result<Option<Never>,Option<bool>>>>("Result<Option<[Never;0]>,Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,(Result<Never,Never>,bool,)>>("Result<Option<[Never;1]>,(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<Option<[Never;1]>,Option<[Never;0]>>>("Result<Option<[Never;1]>,Option<[Never;0]>>"));
    v.push(Ty::of::<Result<Option<bool>,Option<bool>>>("Result<Option<bool>,Option<bool>>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>>>("Result<Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Never>>("Result<Result<Never,Tri>,Never>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Result<Tri,bool>>>("Result<Result<Never,Tri>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,[bool;2]>>("Result<Result<Never,Tri>,[bool;2]>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,(bool,Tri,)>>("Result<Result<Tri,bool>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Option<Never>>>("Result<Result<Tri,bool>,Option<Never>>"));
    v.push(Ty::of::<Result<Result<bool,()>,()>>("Result<Result<bool,()>,()>"));
    v.push(Ty::of::<Result<Result<bool,()>,(Tri,)>>("Result<Result<bool,()>,(Tri,)>"));
    v.push(Ty::of::<Result<Result<bool,()>,[Tri;3]>>("Result<Result<bool,()>,[Tri;3]>"));
    v.push(Ty::of::<Result<Tri,Five>>("Result<Tri,Five>"));
    v.push(Ty::of::<Result<Tri,Option<Tri>>>("Result<Tri,Option<Tri>>"));
    v.push(Ty::of::<Result<Tri,bool>>("Result<Tri,bool>"));
    v.push(Ty::of::<Result<Two,One>>("Result<Two,One>"));
    v.push(Ty::of::<Result<Wide,Four>>("Result<Wide,Four>"));
    v.push(Ty::of::<Result<Wide,bool>>("Result<Wide,bool>"));
    v.push(Ty::of::<Result<[Option<()>;4],(Option<bool>,[Tri;2],)>>("Result<[Option<()>;4],(Option<bool>,[Tri;2],)>"));
    v.push(Ty::of::<Result<[Option<()>;4],Result<Option<Never>,Option<bool>>>>("Result<[Option<()>;4],Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<[Tri;0],Option<Tri>>>("Result<[Tri;0],Option<Tri>>"));
    v.push(Ty::of::<Result<[Tri;3],Never>>("Result<[Tri;3],Never>"));
    v.push(Ty::of::<Result<[Tri;3],Result<bool,()>>>("Result<[Tri;3],Result<bool,()>>"));
    v.push(Ty::of::<Result<[Tri;3],[bool;2]>>("Result<[Tri;3],[bool;2]>"));
    v.push(Ty::of::<Result<[bool;2],Tri>>("Result<[bool;2],Tri>"));
    v.push(Ty::of::<Result<bool,Four>>("Result<bool,Four>"));
    v.push(Ty::of::<Result<bool,Option<bool>>>("Result<bool,Option<bool>>"));
    v.push(Ty::of::<Result<bool,Result<bool,()>>>("Result<bool,Result<bool,()>>"));
    v.push(Ty::of::<Wide>("Wide"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),[(bool,Tri,);2],);2]>("[(((Tri,bool,),Tri,),[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),[Option<()>;4],);2]>("[(((Tri,bool,),Tri,),[Option<()>;4],);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),[Option<()>;4],);2]>("[((Option<bool>,[Tri;2],),[Option<()>;4],);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),);2]>("[((Result<Never,Never>,bool,),(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[((Result<Never,Never>,bool,),Option<[Never;0]>,);2]>("[((Result<Never,Never>,bool,),Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[();16]>("[();16]"));
    v.push(Ty::of::<[();23]>("[();23]"));
    v.push(Ty::of::<[();30]>("[();30]"));
    v.push(Ty::of::<[();8]>("[();8]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,[Option<()>;4],);2]>("[(Option<Result<bool,Tri>>,[Option<()>;4],);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,((Tri,bool,),Tri,),);2]>("[(Option<[Never;1]>,((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,);2]>("[(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,[(bool,Tri,);2],);2]>("[(Option<[Never;1]>,[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(Option<bool>,[Tri;2],);3]>("[(Option<bool>,[Tri;2],);3]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,);2]>("[(Result<Option<Never>,Option<bool>>,Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(Tri,);0]>("[(Tri,);0]"));
    v.push(Ty::of::<[([Option<()>;4],(Result<Never,Never>,bool,),);2]>("[([Option<()>;4],(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[D17;15]>("[D17;15]"));
    v.push(Ty::of::<[D17;8]>("[D17;8]"));
    v.push(Ty::of::<[Five;15]>("[Five;15]"));
    v.push(Ty::of::<[Five;22]>("[Five;22]"));
    v.push(Ty::of::<[Five;4]>("[Five;4]"));
    v.push(Ty::of::<[Four;11]>("[Four;11]"));
    v.push(Ty::of::<[Four;19]>("[Four;19]"));
    v.push(Ty::of::<[Four;26]>("[Four;26]"));
    v.push(Ty::of::<[Four;4]>("[Four;4]"));
    v.push(Ty::of::<[H63;0]>("[H63;0]"));
    v.push(Ty::of::<[Never;15]>("[Never;15]"));
    v.push(Ty::of::<[Never;22]>("[Never;22]"));
    v.push(Ty::of::<[Never;2]>("[Never;2]"));
    v.push(Ty::of::<[Never;7]>("[Never;7]"));
    v.push(Ty::of::<[One;14]>("[One;14]"));
    v.push(Ty::of::<[One;21]>("[One;21]"));
    v.push(Ty::of::<[One;29]>("[One;29]"));
    v.push(Ty::of::<[One;6]>("[One;6]"));
    v.push(Ty::of::<[Option<Never>;0]>("[Option<Never>;0]"));
    v.push(Ty::of::<[Option<[Never;0]>;2]>("[Option<[Never;0]>;2]"));
    v.push(Ty::of::<[Result<Never,Tri>;2]>("[Result<Never,Tri>;2]"));
    v.push(Ty::of::<[Result<bool,()>;0]>("[Result<bool,()>;0]"));
    v.push(Ty::of::<[Tri;0]>("[Tri;0]"));
    v.push(Ty::of::<[Tri;17]>("[Tri;17]"));
    v.push(Ty::of::<[Tri;24]>("[Tri;24]"));
    v.push(Ty::of::<[Tri;31]>("[Tri;31]"));
    v.push(Ty::of::<[Tri;9]>("[Tri;9]"));
    v.push(Ty::of::<[Two;16]>("[Two;16]"));
    v.push(Ty::of::<[Two;23]>("[Two;23]"));
    v.push(Ty::of::<[Two;30]>("[Two;30]"));
    v.push(Ty::of::<[Two;8]>("[Two;8]"));
    v.push(Ty::of::<[Wide;15]>("[Wide;15]"));
    v.push(Ty::of::<[Wide;22]>("[Wide;22]"));
    v.push(Ty::of::<[Wide;2]>("[Wide;2]"));
    v.push(Ty::of::<[Wide;7]>("[Wide;7]"));
    v.push(Ty::of::<[[(bool,Tri,);2];2]>("[[(bool,Tri,);2];2]"));
    v.push(Ty::of::<[[Tri;0];3]>("[[Tri;0];3]"));
    v.push(Ty::of::<[[bool;2];3]>("[[bool;2];3]"));
    v.push(Ty::of::<[bool;16]>("[bool;16]"));
    v.push(Ty::of::<[bool;23]>("[bool;23]"));
    v.push(Ty::of::<[bool;30]>("[bool;30]"));
    v.push(Ty::of::<[bool;8]>("[bool;8]"));
}
